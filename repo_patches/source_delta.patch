From c763ffab698c9035f332c9496682529d9ce1fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 01/87] fix: use the earliest end when intersecting window and
 abs_window

_calc_max_window() computes the intersection of both windows, but picked the
latest of the two ends, keeping events that are outside of one of them.
---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 1d26fb5..c5425e2 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -163,7 +163,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         max_window[0] = max(self.window[0] + self.basetime, self.abs_window[0])
 
         if (self.window[1] is not None) and (self.abs_window[1] is not None):
-            max_window[1] = max(self.window[1] + self.basetime, self.abs_window[1])
+            max_window[1] = min(self.window[1] + self.basetime, self.abs_window[1])
         elif self.window[1] is not None:
             max_window[1] = self.window[1] + self.basetime
         elif self.abs_window[1] is not None:
-- 
2.43.0


From 5187ae13fcb8a7a8536fa9f9019945577d22b5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 02/87] fix: honour a window that ends at timestamp 0

An end of 0 was taken for 'until the end of the trace'.
---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index c5425e2..2187bc1 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -181,7 +181,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         # Ensure it's sorted for good measure.
         trace_class.data_frame.sort_index(inplace=True)
 
-        if window[1]:
+        if window[1] is not None:
             trace_class.data_frame = trace_class.data_frame[
                 window[0]:window[1]]
         elif window[0]:
-- 
2.43.0


From 1c94925a51093e93d884101a19c0169b8ebbcb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 03/87] fix: keep timestamps unique once they are normalized

Lines with the same recorded timestamp are told apart by moving the later
one to the next representable value.  Subtracting the basetime afterwards
could round both back to the same value, so frames parsed with
normalize_time=True had duplicated index entries.
---
 trappy/ftrace.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 2187bc1..a551a41 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -393,6 +393,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                                            actual_trace)
 
         timestamp = 0
+        normalized = -math.inf
         for line in actual_trace:
             trace_class = self.__get_trace_class(line, cls_for_unique_word)
             line = line.rstrip()
@@ -427,11 +428,19 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                     # absolute value down.
                     timestamp = np.nextafter(timestamp, math.inf)
 
+                # Subtracting the basetime can round two neighbouring values
+                # to the same one, so make sure that the timestamps are still
+                # unique and in order once they have been normalized.
+                while timestamp - self.basetime <= normalized:
+                    timestamp = np.nextafter(timestamp, math.inf)
+
                 if not self.basetime:
                     self.basetime = timestamp
                     # Now that we know the basetime, we can derive max_window
                     self.max_window = self._calc_max_window()
 
+                normalized = timestamp - self.basetime
+
                 if trace_class:
                     data_str = fields_match.group('data')
 
-- 
2.43.0


From 2c101ba9f296772ac8d3f42b1a6b29fcf738b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 04/87] fix: expand arrays that don't appear in the first line
 of an event

The scan for arrays gave up on the first line without any, so the arrays of
all the following lines were left as unparsed strings.
---
 trappy/base.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index 40a6f9e..ecf6e90 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -157,10 +157,6 @@ class Base(object):
 
                 line = line[match.end():]
 
-            # Stop scanning if the trace doesn't have arrays
-            if len(ret) == 0:
-                break
-
         return ret
 
     def append_data(self, time, comm, pid, cpu, line, data):
-- 
2.43.0


From ff6bc07c04b769416648579b834debdd190ff6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 05/87] fix: remove empty arrays at the end of a line too

---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index a551a41..f882f9b 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -446,7 +446,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
                     # Remove empty arrays from the trace
                     if "={}" in data_str:
-                        data_str = re.sub(r"[A-Za-z0-9_]+=\{\} ", r"", data_str)
+                        data_str = re.sub(r"[A-Za-z0-9_]+=\{\}( |$)", r"", data_str)
 
                     trace_class.append_data(timestamp, comm, pid, cpu, self.lines, data_str)
 
-- 
2.43.0


From b856e516d86484b47f41cc65c145ffee2293139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 06/87] fix: get exactly what was parsed back from the cache

Reading plain CSV back turned strings that look like something else into it:
a comm "123" became a number, "NA" or an empty value NaN, cpus=00000030 lost
its zeros, and an integer in a column of strings became a string.  Floats were
not read back exactly, truncated files were taken as complete and a class was
given the data cached by another one of the same name.
---
 trappy/base.py   | 87 ++++++++++++++++++++++++++++++++++++++++++++++++
 trappy/ftrace.py | 25 ++++++++++++--
 2 files changed, 109 insertions(+), 3 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index ecf6e90..1e83e06 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -22,6 +22,9 @@ from builtins import zip
 from builtins import range
 from builtins import object
 from past.builtins import basestring
+import hashlib
+import io
+import json
 import re
 import pandas as pd
 import warnings
@@ -329,6 +332,90 @@ class Base(object):
         )
         self.optimize_dataframe()
 
+    def write_cache(self, fname, key):
+        """Write the data frame in such a way that :meth:`read_cache` gives
+        exactly the same one back
+
+        A CSV file on its own can't tell strings that look like something else
+        ("123", "nan", "00000003", "") from the real thing, so the cells of the
+        columns that may hold strings are encoded in JSON.  The first line of
+        the file describes its contents.
+
+        :param fname: The name of the file
+        :type fname: str
+
+        :param key: What the contents of the file depend on
+        :type key: dict
+        """
+        dfr = self.data_frame
+        dtypes = [str(dtype) for dtype in dfr.dtypes]
+        encoded = pd.DataFrame(
+            {idx: (dfr.iloc[:, idx].map(json.dumps) if dtype == "object"
+                   else dfr.iloc[:, idx])
+             for idx, dtype in enumerate(dtypes)}, index=dfr.index)
+
+        body = encoded.to_csv()
+        header = {
+            "key": key,
+            "columns": list(dfr.columns),
+            "dtypes": dtypes,
+            "md5sum": hashlib.md5(body.encode("utf-8")).hexdigest(),
+        }
+
+        with io.open(fname, "w", encoding="utf-8", newline="") as fout:
+            fout.write(json.dumps(header) + "\n")
+            fout.write(body)
+
+    def read_cache(self, fname, key):
+        """Read the data frame written by :meth:`write_cache`
+
+        :param fname: The name of the file
+        :type fname: str
+
+        :param key: What the contents of the file should depend on
+        :type key: dict
+
+        :raises ValueError: if the file is damaged or if it was written with
+            another key
+        """
+        with io.open(fname, "r", encoding="utf-8", newline="") as fin:
+            header = json.loads(fin.readline())
+            body = fin.read()
+
+        if header["key"] != key:
+            raise ValueError("{} has been cached for {}, not for {}".format(
+                fname, header["key"], key))
+
+        if header["md5sum"] != hashlib.md5(body.encode("utf-8")).hexdigest():
+            raise ValueError("{} is damaged".format(fname))
+
+        if not header["columns"]:
+            self.data_frame = pd.DataFrame()
+            return
+
+        dtypes = header["dtypes"]
+        dfr = pd.read_csv(
+            io.StringIO(body),
+            index_col=0,
+            # This ensures cached vs parsed values are converted using the
+            # same method, aka python's float() and not numpy's
+            converters={'Time' : float},
+            float_precision="round_trip",
+            keep_default_na=False,
+            na_values={str(idx): [""] for idx, dtype in enumerate(dtypes)
+                       if dtype != "object"},
+            dtype={str(idx): ("str" if dtype == "object" else dtype)
+                   for idx, dtype in enumerate(dtypes)})
+
+        for idx, dtype in enumerate(dtypes):
+            if dtype == "object":
+                dfr[str(idx)] = pd.Series(
+                    [json.loads(val) for val in dfr[str(idx)]],
+                    index=dfr.index, dtype="object")
+
+        dfr.columns = header["columns"]
+        self.data_frame = dfr
+
     def normalize_time(self, basetime):
         """Substract basetime from the Time of the data frame
 
diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index f882f9b..e1766e4 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -199,6 +199,22 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         path = self._trace_cache_path()
         return os.path.join(path, trace_class.__class__.__name__ + '.csv')
 
+    def _get_cache_key(self, trace_class):
+        # The class name, which names the file, doesn't say which lines the
+        # class was looking for
+        key = {
+            "unique_word": trace_class.unique_word,
+            "parse_raw": bool(trace_class.parse_raw),
+        }
+
+        # The lines that make it to a fallback class are those that nobody else
+        # was interested in
+        if trace_class.fallback:
+            key["not"] = sorted(c.unique_word for c in self.trace_classes
+                                if c is not trace_class)
+
+        return key
+
     def _get_cache_metadata(self):
         cache_path = self._trace_cache_path()
         metadata_path = os.path.join(cache_path, 'metadata.json')
@@ -254,10 +270,13 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                     continue
 
                 csv_file = self._get_csv_path(trace_class)
-                trace_class.write_csv(csv_file)
+                trace_class.write_cache(csv_file, self._get_cache_key(trace_class))
         except OSError as err:
             warnings.warn(
                 "TRAPpy: Cache not created due to OS error: {0}".format(err))
+        except TypeError as err:
+            warnings.warn(
+                "TRAPpy: Cache not created, values can't be saved: {0}".format(err))
 
     def _get_metadata_to_cache(self):
         # By default, some amount of metadata is saved in metadata.json
@@ -290,9 +309,9 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         for trace_class in self.trace_classes:
             try:
                 csv_file = self._get_csv_path(trace_class)
-                trace_class.read_csv(csv_file)
+                trace_class.read_cache(csv_file, self._get_cache_key(trace_class))
                 trace_class.cached = True
-            except:
+            except Exception:
                 warnstr = "TRAPpy: Couldn't read {} from cache, reading it from trace".format(trace_class)
                 warnings.warn(warnstr)
 
-- 
2.43.0


From e4c2910665bbe7752d6c52d54e18796a508763a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 07/87] fix: parse the trace again when the cache metadata
 can't be used

A missing, truncated or incomplete metadata.json, or something that is not a
directory in the place of the cache, made the constructor raise instead of
falling back to the trace.  So did a cache that can't be removed.
---
 trappy/ftrace.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index e1766e4..615fd54 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -225,9 +225,12 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
         return metadata
 
+    # Keys without which the cache metadata can't be used
+    _cache_metadata_keys = ["md5sum", "basetime", "endtime"]
+
     def _is_cache_valid(self, cache_metadata):
-        for key in ["md5sum", "basetime", "endtime"]:
-            if key not in cache_metadata.keys():
+        for key in self._cache_metadata_keys:
+            if not isinstance(cache_metadata, dict) or key not in cache_metadata:
                 warnstr = "Cache metadata is erroneous, invalidating cache"
                 warnings.warn(warnstr)
                 return False
@@ -295,10 +298,19 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         if not os.path.exists(cache_path):
             return
 
-        metadata = self._get_cache_metadata()
+        try:
+            metadata = self._get_cache_metadata()
+        except (OSError, ValueError) as err:
+            warnings.warn(
+                "TRAPpy: Couldn't read the cache metadata: {0}".format(err))
+            metadata = {}
 
         if not self._is_cache_valid(metadata):
-            shutil.rmtree(cache_path)
+            try:
+                shutil.rmtree(cache_path)
+            except OSError as err:
+                warnings.warn(
+                    "TRAPpy: Cache not removed due to OS error: {0}".format(err))
             return
 
         # Load metadata
@@ -852,6 +864,8 @@ class FTrace(GenericFTrace):
         if self.read_from_dat:
             os.remove(self.file_to_parse)
 
+    _cache_metadata_keys = GenericFTrace._cache_metadata_keys + ["ftrace"]
+
     def _load_metadata_from_cache(self, metadata):
         super(FTrace, self)._load_metadata_from_cache(metadata)
 
-- 
2.43.0


From 7a7f6c51d8059e58e66ad19e497e2308fa16580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 08/87] fix: don't share a cache between different parsers of
 the same file

SysTrace and FTrace read different lines of the same file and save different
metadata, but they used each other's cache.
---
 trappy/ftrace.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 615fd54..7162b24 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -226,7 +226,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         return metadata
 
     # Keys without which the cache metadata can't be used
-    _cache_metadata_keys = ["md5sum", "basetime", "endtime"]
+    _cache_metadata_keys = ["parser", "md5sum", "basetime", "endtime"]
 
     def _is_cache_valid(self, cache_metadata):
         for key in self._cache_metadata_keys:
@@ -238,6 +238,11 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         with open(self.trace_path, 'rb') as f:
             trace_md5sum = hashlib.md5(f.read()).hexdigest()
 
+        if cache_metadata["parser"] != self.__class__.__name__:
+            warnstr = "Cached data is from another parser, invalidating cache."
+            warnings.warn(warnstr)
+            return False
+
         if cache_metadata["md5sum"] != trace_md5sum:
             warnstr = "Cached data is from another trace, invalidating cache."
             warnings.warn(warnstr)
@@ -289,6 +294,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         metadata["md5sum"] = hashlib.md5(
             open(self.trace_path, 'rb').read()
         ).hexdigest()
+        metadata["parser"] = self.__class__.__name__
         metadata["basetime"] = self.basetime
         metadata["endtime"] = self.endtime
         return metadata
-- 
2.43.0


From 9cce28fe6a74a521fc36c79b0737af7a23023c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 09/87] fix: don't give the lines of cached events to other
 events

When only some of the events of a trace were cached, their lines were up for
grabs: a tracing_mark_write read from the trace included the markers of all the
events that had been read from the cache.
---
 trappy/ftrace.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 7162b24..f6f4496 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -478,7 +478,9 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
                 normalized = timestamp - self.basetime
 
-                if trace_class:
+                # The lines of the cached classes are matched as well so that
+                # they don't end up in another class
+                if trace_class and not trace_class.cached:
                     data_str = fields_match.group('data')
 
                     # Remove empty arrays from the trace
@@ -529,9 +531,6 @@ is part of the trace.
         cls_for_unique_word = {}
         for trace_name in self.class_definitions.keys():
             trace_class = getattr(self, trace_name)
-            if trace_class.cached:
-                continue
-
             unique_word = trace_class.unique_word
             if unique_word in cls_for_unique_word:
                 # This means TRAPpy has a nasty bug, like the one fixed in
-- 
2.43.0


From 2b604be5075d2ed3dfea947652ce46df418ae777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 10/87] fix: read the trace even if no event is requested

With caching enabled a trace without any events was never read, so it had no
start, no end and no metadata.
---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index f6f4496..8c1d988 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -354,7 +354,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
             self._load_cache()
 
             # Check if cache data is enough
-            if all([c.cached for c in self.trace_classes]):
+            if self.trace_classes and all([c.cached for c in self.trace_classes]):
                 self._apply_user_parameters()
                 return
 
-- 
2.43.0


From b9782bc644cfca1e461f8ee87abd467b9a0f3e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 11/87] fix: set the trace metadata that is missing when read
 from the cache too

A header without cpus or version left the attribute as None when the trace was
parsed, but undefined when it was read from the cache.
---
 trappy/ftrace.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 8c1d988..e17a41e 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -974,9 +974,6 @@ class FTrace(GenericFTrace):
         metadata_keys = ["version", "cpus"]
         res = {}
 
-        for key in metadata_keys:
-            setattr(self, "_" + key, None)
-
         with io.open(self.file_to_parse, 'r', encoding='utf-8') as fin:
             for line in fin:
                 if not metadata_keys:
@@ -998,5 +995,5 @@ class FTrace(GenericFTrace):
     def __populate_trace_metadata(self, metadata):
         self.metadata = metadata
 
-        for key, value in metadata.items():
-            setattr(self, "_" + key, value)
+        for key in ["version", "cpus"]:
+            setattr(self, "_" + key, metadata.get(key))
-- 
2.43.0


From 627071f96deb20661ec872e457f491eaa3146051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 12/87] fix: parse systraces without any sched_switch

The number of cpus is worked out from the sched_switch events and a KeyError
was raised when the trace had none.
---
 trappy/systrace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/systrace.py b/trappy/systrace.py
index 41d806f..7d777fa 100644
--- a/trappy/systrace.py
+++ b/trappy/systrace.py
@@ -69,7 +69,8 @@ class SysTrace(GenericFTrace):
 
         try:
             self._cpus = 1 + self.sched_switch.data_frame["__cpu"].max()
-        except AttributeError:
+        except (AttributeError, KeyError):
+            # No sched_switch class, or no sched_switch in the trace
             pass
 
     def trace_hasnt_started(self):
-- 
2.43.0


From ea792c8e755b8d8a761f3b8dfa16b89e6186cab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 13/87] fix: parse sys_enter lines with a negative system call
 number

The kernel traces NR -1 when the entry has been cancelled.  sys_exit already
accepts it but sys_enter made parsing the whole trace fail.
---
 trappy/raw_syscalls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/raw_syscalls.py b/trappy/raw_syscalls.py
index dc256f2..1d64a7b 100644
--- a/trappy/raw_syscalls.py
+++ b/trappy/raw_syscalls.py
@@ -24,7 +24,7 @@ class SysEnter(Base):
     unique_word = "sys_enter"
     pivot = "pid"
     parse_raw = False
-    pat = re.compile(r"NR (\d+) \(([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+)\)")
+    pat = re.compile(r"NR ([-+]?\d+) \(([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+)\)")
 
     def __init__(self):
         super(SysEnter, self).__init__(parse_raw=self.parse_raw)
-- 
2.43.0


From ad0edaae6918fc6ae75ef1269e920465d80ec29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 14/87] fix: don't use DataFrame.ix to list the pids of
 sched_load_avg_task

pandas removed it long ago, so get_pids() always failed.
---
 trappy/sched.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/sched.py b/trappy/sched.py
index 425c2fd..98ac4a5 100644
--- a/trappy/sched.py
+++ b/trappy/sched.py
@@ -56,7 +56,7 @@ class SchedLoadAvgTask(Base):
         """Returns a list of (comm, pid) that contain
         'key' in their 'comm'."""
         dfr = self.data_frame.drop_duplicates(subset=['comm', 'pid'])
-        dfr = dfr.ix[:, ['comm', 'pid']]
+        dfr = dfr.loc[:, ['comm', 'pid']]
 
         return dfr[dfr['comm'].str.contains(key)].values.tolist()
 
-- 
2.43.0


From 38731d2ff8616df85fcc873fd30cdf040ab3e060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 15/87] fix: use the first header of a line that contains
 another one

A marker that quotes a line of a trace was given the task, cpu, time and data
of the quoted line.
---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index e17a41e..61088f0 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -62,7 +62,7 @@ def _plot_freq_hists(allfreqs, what, axis, title):
                              "Frequency", xlim, "default")
 
 SPECIAL_FIELDS_RE = re.compile(
-                        r"^\s*(?P<comm>.*)-(?P<pid>\d+)(?:\s+\(.*\))"\
+                        r"^\s*(?P<comm>.*?)-(?P<pid>\d+)(?:\s+\(.*?\))"\
                         r"?\s+\[(?P<cpu>\d+)\](?:\s+....)?\s+"\
                         r"(?P<timestamp>[0-9]+(?P<us>\.[0-9]+)?): (\w+:\s+)+(?P<data>.+)"
 )
-- 
2.43.0


From b248fae02ab4c6a73847d4494aa0be5350231c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 16/87] fix: only take a lone capital letter as a systrace
 annotation

Any marker that starts with a capital letter was reduced to that letter and the
rest of it was lost.
---
 trappy/systrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/systrace.py b/trappy/systrace.py
index 7d777fa..a877b9c 100644
--- a/trappy/systrace.py
+++ b/trappy/systrace.py
@@ -21,7 +21,7 @@ from trappy.ftrace import GenericFTrace
 import re
 
 SYSTRACE_EVENT = re.compile(
-    r'^(?P<event>[A-Z])(\|(?P<pid>\d+)\|(?P<func>[^|]*)(\|(?P<data>.*))?)?')
+    r'^(?P<event>[A-Z])(?=\||$)(\|(?P<pid>\d+)\|(?P<func>[^|]*)(\|(?P<data>.*))?)?')
 
 class drop_before_trace(object):
     """Object that, when called, returns True if the line is not part of
-- 
2.43.0


From 12b2b1fa768b9492d078a4b67f32e108350703f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 17/87] fix: don't leave temporary files behind when a trace
 can't be converted or parsed

---
 trappy/ftrace.py | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 61088f0..86bf898 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -358,18 +358,20 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                 self._apply_user_parameters()
                 return
 
-        self._parsing_setup()
-
-        self.__parse_trace_file(self.file_to_parse)
-        self.finalize_objects()
+        try:
+            self._parsing_setup()
 
-        # Update (or create) cache directory
-        if not self.__class__.disable_cache:
-            self._update_cache()
+            self.__parse_trace_file(self.file_to_parse)
+            self.finalize_objects()
 
-        self._apply_user_parameters()
+            # Update (or create) cache directory
+            if not self.__class__.disable_cache:
+                self._update_cache()
 
-        self._parsing_teardown()
+            self._apply_user_parameters()
+        finally:
+            # Clean up even if the trace couldn't be parsed
+            self._parsing_teardown()
 
     def _parsing_setup(self):
         # By default, the file pointed by trace_path is parsed. However, an
@@ -855,7 +857,7 @@ class FTrace(GenericFTrace):
         super(FTrace, self)._parsing_setup()
 
         if self.read_from_dat:
-            self.file_to_parse = self.__generate_trace_txt(self.trace_path)
+            self.__generate_trace_txt(self.trace_path)
 
         # file_to_parse is already set to trace_path in the superclass,
         # so no "else" is needed here
@@ -866,7 +868,7 @@ class FTrace(GenericFTrace):
         super(FTrace, self)._parsing_teardown()
 
         # Remove the .txt trace if it was generated from a .dat
-        if self.read_from_dat:
+        if self.read_from_dat and self.file_to_parse != self.trace_path:
             os.remove(self.file_to_parse)
 
     _cache_metadata_keys = GenericFTrace._cache_metadata_keys + ["ftrace"]
@@ -945,19 +947,20 @@ class FTrace(GenericFTrace):
 
         cmd.append(trace_dat)
 
-        with NamedTemporaryFile(delete=False) as fout:
-            try:
-                output = run(cmd, capture_output=True, check=True)
-            except OSError as exc:
-                if exc.errno == 2 and not exc.filename:
-                    raise OSError(2, "trace-cmd not found in PATH, is it installed?")
-                else:
-                    raise
+        try:
+            output = run(cmd, capture_output=True, check=True)
+        except OSError as exc:
+            if exc.errno == 2 and not exc.filename:
+                raise OSError(2, "trace-cmd not found in PATH, is it installed?")
+            else:
+                raise
 
+        # Only create the file once there's something to put in it, it's
+        # removed by _parsing_teardown()
+        with NamedTemporaryFile(delete=False) as fout:
+            self.file_to_parse = fout.name
             fout.write(output.stdout)
 
-        return fout.name
-
     def __get_raw_event_list(self):
         self.raw_events = []
         # Generate list of events which need to be parsed in raw format
-- 
2.43.0


From 43f8130d121d74724fc61d3b4b8ea8339c03e77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 18/87] fix: use the event's own name to ask trace-cmd for raw
 output

---
 trappy/ftrace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 86bf898..f7427fa 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -968,9 +968,9 @@ class FTrace(GenericFTrace):
             for trace_class in event_class.values():
                 raw = getattr(trace_class, 'parse_raw', None)
                 if raw:
-                    name = getattr(trace_class, 'name', None)
-                    if name:
-                        self.raw_events.append(name)
+                    # This is the name of the event in the trace, which isn't
+                    # necessarily that of the class
+                    self.raw_events.append(trace_class.unique_word.rstrip(":"))
 
     def __get_trace_metadata(self):
         # Meta Data as expected to be found in the parsed trace header
-- 
2.43.0


From dba5f50a5d7f28917e28021b144584ecfc7fafce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 19/87] fix: keep the order and the caller's data when handling
 duplicate indexes

---
 trappy/utils.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/trappy/utils.py b/trappy/utils.py
index 0bc6302..36eed07 100644
--- a/trappy/utils.py
+++ b/trappy/utils.py
@@ -18,6 +18,9 @@
 from __future__ import division
 from __future__ import unicode_literals
 
+import numpy as np
+import pandas as pd
+
 def listify(to_select):
     """Utitlity function to handle both single and
     list inputs
@@ -76,12 +79,17 @@ def handle_duplicate_index(data,
     # so that the order of events is preserved after fixing the duplicated
     # timestamp.
     if '__line' in data:
-        data.sort_values(['Time', '__line'], inplace=True)
+        data = data.iloc[np.lexsort((data['__line'], data.index))]
 
+    # The caller's data must not be changed
+    data = data.copy()
     index = data.index
-    new_index = index.values
 
     dups = index[index.duplicated()].unique()
+    if not len(dups):
+        return data
+
+    new_index = index.values.astype(float)
 
     for dup in dups:
         # Leave one of the values intact
@@ -102,11 +110,11 @@ def handle_duplicate_index(data,
         if delta > max_delta:
             delta = max_delta
 
-        # Add a delta to the others
-        dup_index_left += 1
-        while dup_index_left <= dup_index_right:
-            new_index[dup_index_left] += delta
-            delta += delta
-            dup_index_left += 1
+        # Add an increasing number of deltas to the others
+        for dup_index in range(dup_index_left + 1, dup_index_right + 1):
+            new_index[dup_index] = max(
+                dup + (dup_index - dup_index_left) * delta,
+                np.nextafter(new_index[dup_index - 1], np.inf))
 
-    return data.reindex(new_index)
+    data.index = pd.Index(new_index, name=index.name)
+    return data
-- 
2.43.0


From b3a794fd65fdd1aacbecd286073d58392e91b38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 20/87] fix: parse fields that are called Time

---
 trappy/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index 1e83e06..d120eda 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -424,6 +424,4 @@ class Base(object):
         :type basetime: float
         """
         if basetime and not self.data_frame.empty:
-            self.data_frame.reset_index(inplace=True)
-            self.data_frame["Time"] = self.data_frame["Time"] - basetime
-            self.data_frame.set_index("Time", inplace=True)
+            self.data_frame.index = self.data_frame.index - basetime
-- 
2.43.0


From ec568f38011c5ae1add5b204d738a11517dd2497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 21/87] fix: get the duration of traces with unsorted events

---
 trappy/bare_trace.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trappy/bare_trace.py b/trappy/bare_trace.py
index 36a8bc2..2b6c94c 100644
--- a/trappy/bare_trace.py
+++ b/trappy/bare_trace.py
@@ -46,11 +46,11 @@ class BareTrace(object):
         min_durations = []
 
         for trace_class in self.trace_classes:
-            try:
-                max_durations.append(trace_class.data_frame.index[-1])
-                min_durations.append(trace_class.data_frame.index[0])
-            except IndexError:
-                pass
+            # The events that were added by the user may not be in order
+            index = trace_class.data_frame.index
+            if len(index) > 0:
+                max_durations.append(index.max())
+                min_durations.append(index.min())
 
         if len(min_durations) == 0 or len(max_durations) == 0:
             return 0
-- 
2.43.0


From 06dadc2bc08b8dff2722070cbc62baf2490c471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 22/87] fix: give the column that a trigger was asked for

---
 trappy/stats/Trigger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 586a76c..05f3e03 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -105,7 +105,7 @@ class Trigger(object):
         data_frame = data_frame[mask]
 
         if isinstance(self._value, str):
-            return data_frame[value]
+            return data_frame[self._value]
         else:
             return pd.Series(self._value, index=data_frame.index)
 
-- 
2.43.0


From c94e5e02812e430697acf5d90453d03eef0d6605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 23/87] fix: let a trigger's list of values match any of them

---
 trappy/stats/Trigger.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 05f3e03..22bd71f 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -130,6 +130,4 @@ def apply_filter_kv(key, value, data_frame, mask):
     if key not in data_frame.columns:
         return mask
     else:
-        for val in value:
-            mask = mask & (data_frame[key] == val)
-        return mask
+        return mask & data_frame[key].isin(value)
-- 
2.43.0


From dacdbccb4eaca628f4c4652513af3bb83da0e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 24/87] fix: generate triggers of events without rows

---
 trappy/stats/Trigger.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 22bd71f..aa2ff17 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -27,7 +27,6 @@ from __future__ import unicode_literals
 from __future__ import division
 from __future__ import print_function
 
-from builtins import range
 from builtins import object
 import types
 from trappy.utils import listify
@@ -92,9 +91,13 @@ class Trigger(object):
 
         trappy_event = getattr(self.trace, self.template.name)
         data_frame = trappy_event.data_frame
+        if data_frame.empty:
+            # No columns to look at, and nothing to be triggered by
+            return pd.Series(dtype="float64")
+
         data_frame = data_frame[data_frame[self._pivot] == pivot_val]
 
-        mask = [True for _ in range(len(data_frame))]
+        mask = pd.Series(True, index=data_frame.index, dtype="bool")
 
         for key, value in self._filters.items():
             if hasattr(value, "__call__"):
-- 
2.43.0


From aebe18728b961bcba7497cb53bf123f472325872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 25/87] fix: don't change the results of the nodes when
 aggregating

---
 trappy/stats/Aggregator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/stats/Aggregator.py b/trappy/stats/Aggregator.py
index 715d47c..870e9c4 100644
--- a/trappy/stats/Aggregator.py
+++ b/trappy/stats/Aggregator.py
@@ -151,7 +151,8 @@ class MultiTriggerAggregator(AbstractAggregator):
                 else:
                     node_res = self._result[node]
 
-                level_res += node_res
+                # Not in place, level_res may be the result of a node
+                level_res = level_res + node_res
 
             result.append(level_res)
 
-- 
2.43.0


From c33729975fa9a5282eae1eb70cc5dc52a064e73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 26/87] fix: accept a single trigger in the aggregator, as
 documented

---
 trappy/stats/Aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Aggregator.py b/trappy/stats/Aggregator.py
index 870e9c4..162bacf 100644
--- a/trappy/stats/Aggregator.py
+++ b/trappy/stats/Aggregator.py
@@ -103,7 +103,7 @@ class MultiTriggerAggregator(AbstractAggregator):
                 will be processed by the aggfunc
         :type aggfunc: function
         """
-        self._triggers = triggers
+        self._triggers = listify(triggers)
         self.topology = topology
         super(
             MultiTriggerAggregator,
-- 
2.43.0


From 28a2f667fe6c3db9324496f40fd48bfc99f348cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 27/87] fix: the level 'all' of a topology has one group

---
 trappy/stats/Topology.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/trappy/stats/Topology.py b/trappy/stats/Topology.py
index 82877a3..fe7925f 100644
--- a/trappy/stats/Topology.py
+++ b/trappy/stats/Topology.py
@@ -167,10 +167,7 @@ class Topology(object):
         :param level: The name of the level
         :type level_name: str
         """
-        if level == "all":
-            return len(self._nodes)
-        else:
-            return len(self._levels[level])
+        return len(self.get_level(level))
 
     def has_level(self, level):
         """Returns true if level is present
-- 
2.43.0


From 906fb26dd7f9dfc1047c23bd889710b5a958ec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 28/87] fix: correlate traces without samples with any function

---
 trappy/stats/Correlator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/stats/Correlator.py b/trappy/stats/Correlator.py
index 50d929d..7da0cca 100644
--- a/trappy/stats/Correlator.py
+++ b/trappy/stats/Correlator.py
@@ -95,7 +95,8 @@ class Correlator(object):
 
         total = 0
         for weight, corr in zip(weights, corr_output):
-            if math.isnan(corr):
+            # Groups without any sample don't count
+            if math.isnan(corr) or not weight:
                 continue
             total += (weight * corr) / sum(weights)
 
-- 
2.43.0


From 0ab8cc5b9ea35da5cf261d82e7f5298c1474b734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:38 +0000
Subject: [PATCH 29/87] fix: call any callable variable from the grammar

---
 trappy/stats/grammar.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 86c7144..fcfacf1 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -25,7 +25,6 @@ from pyparsing import Literal, delimitedList, Optional, oneOf, nums,\
     alphas, alphanums, Forward, Word, opAssoc, operatorPrecedence, Combine, Group
 import importlib
 import pandas as pd
-import types
 import numpy as np
 from trappy.stats.Topology import Topology
 from trappy.stats import StatConf
@@ -520,9 +519,7 @@ class Parser(object):
 
         params = tokens[0]
         func_name = params[0]
-        if func_name in self._pvars and isinstance(
-                self._pvars[func_name],
-                types.FunctionType):
+        if callable(self._pvars.get(func_name)):
             func = self._pvars[func_name]
         else:
             func = str_to_attr(params[0])
-- 
2.43.0


From ef724143a5f86919b5530a866fbf0fcc64c400f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:38 +0000
Subject: [PATCH 30/87] fix: call functions without arguments from the grammar

---
 trappy/stats/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index fcfacf1..bc88f0b 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -523,7 +523,8 @@ class Parser(object):
             func = self._pvars[func_name]
         else:
             func = str_to_attr(params[0])
-        return func(*params[1])
+        # The arguments are missing in a call without any
+        return func(*params[1:] and params[1])
 
     def _get_data_frame(self, cls):
         """Get the data frame from the BareTrace object, applying the window
-- 
2.43.0


From 48ab720f1a1301c3da227e7e603b40cf91a41cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:38 +0000
Subject: [PATCH 31/87] fix: parse numbers with an exponent and no decimal
 point in the grammar

---
 trappy/stats/grammar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index bc88f0b..513fbc1 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -51,9 +51,9 @@ EXP_END = Literal("]").suppress()
 # DataFrame Accessor
 INTEGER = Combine(Optional(oneOf("+ -")) + Word(nums))\
     .setParseAction(parse_num)
-REAL = Combine(Optional(oneOf("+ -")) + Word(nums) + "." +
-               Optional(Word(nums)) +
-               Optional(oneOf("e E") + Optional(oneOf("+ -")) + Word(nums)))\
+EXPONENT = oneOf("e E") + Optional(oneOf("+ -")) + Word(nums)
+REAL = Combine(Optional(oneOf("+ -")) + Word(nums) +
+               ("." + Optional(Word(nums)) + Optional(EXPONENT) | EXPONENT))\
     .setParseAction(parse_num)
 
 # Generic Identifier
-- 
2.43.0


From 81d4a885c85348effb5cffa0f02deb3553f445a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 32/87] fix: refuse unknown variables in the grammar

They were taken for the column named by their second character.
---
 trappy/stats/grammar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 513fbc1..fa01a5f 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -22,7 +22,8 @@ from __future__ import division
 from __future__ import unicode_literals
 from builtins import object
 from pyparsing import Literal, delimitedList, Optional, oneOf, nums,\
-    alphas, alphanums, Forward, Word, opAssoc, operatorPrecedence, Combine, Group
+    alphas, alphanums, Forward, Word, opAssoc, operatorPrecedence, Combine, Group,\
+    ParseResults
 import importlib
 import pandas as pd
 import numpy as np
@@ -512,7 +513,9 @@ class Parser(object):
             try:
                 return self._pvars[params]
             except KeyError:
-                return self._agg_df[params[1]]
+                if isinstance(params, ParseResults):
+                    return self._agg_df[params[1]]
+                raise ValueError("Unknown variable {}".format(params))
 
     def _parse_func(self, tokens):
         """A function to parse a function string"""
-- 
2.43.0


From 4c68930b411a214b1d4e27da7421adf6109a6580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 33/87] fix: set the pivot of an added event in its class

The expressions and the constraints look for the pivot in the class.
---
 trappy/bare_trace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/bare_trace.py b/trappy/bare_trace.py
index 2b6c94c..d45c994 100644
--- a/trappy/bare_trace.py
+++ b/trappy/bare_trace.py
@@ -125,14 +125,15 @@ class BareTrace(object):
             "name": name,
         }
 
+        if pivot:
+            kwords["pivot"] = pivot
+
         trace_class = DynamicTypeFactory(name, (Base,), kwords)
         self.class_definitions[name] = trace_class
 
         event = trace_class()
         self.trace_classes.append(event)
         event.data_frame = dfr
-        if pivot:
-            event.pivot = pivot
 
         setattr(self, name, event)
 
-- 
2.43.0


From 613e7fe63ca17ce4bd35ceebf33d4829dcf3f477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 34/87] fix: inspect events without rows in the grammar

---
 trappy/stats/grammar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index fa01a5f..6c481a1 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -497,7 +497,9 @@ class Parser(object):
         info["length"] = len(data_frame)
         if hasattr(cls, "pivot") and cls.pivot:
             info["pivot"] = cls.pivot
-            info["pivot_values"] = list(np.unique(data_frame[cls.pivot]))
+            info["pivot_values"] = []
+            if not data_frame.empty:
+                info["pivot_values"] = list(np.unique(data_frame[cls.pivot]))
         info["column"] = column
         info["column_present"] = column in data_frame.columns
         return info
-- 
2.43.0


From 11efcdf8abb9e86d003e488e22a3fb521c810f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 35/87] fix: tell apart equally named columns of several events
 in the grammar

The columns of the first event were used for the others.
---
 trappy/stats/grammar.py | 61 ++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 6c481a1..bdc73c5 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -345,6 +345,8 @@ class Parser(object):
         self._parse_expr = get_parse_expression(
             self._parse_func, self._parse_var_id)
         self._agg_df = pd.DataFrame()
+        # The name in _agg_df of each (event, column)
+        self._columns = {}
         self._pivot_set = set()
         self._limit = kwargs.get("limit", StatConf.REINDEX_LIMIT_DEFAULT)
         self._method = kwargs.get("method", StatConf.REINDEX_METHOD_DEFAULT)
@@ -447,50 +449,51 @@ class Parser(object):
     def _pre_process(self, tokens):
         """Pre-process accessors for super-indexing"""
 
-        params = tokens[0]
-        if params[1] in self._agg_df.columns:
-            return self._agg_df[params[1]]
+        event, column = tokens[0]
+        cls = self._get_class(event)
+        if (cls.name, column) in self._columns:
+            return self._agg_df[self._columns[cls.name, column]]
 
-        event = params[0]
-        column = params[1]
+        data_frame = self._pivot(cls, column)
 
-        if event in self._pvars:
-            cls = self._pvars[event]
-        elif event in self.data.class_definitions:
-            cls = self.data.class_definitions[event]
-        else:
-            try:
-                cls = str_to_attr(event)
-            except KeyError:
-                raise ValueError(
-                    "Can't find parser class for event {}".format(event))
+        # Keep apart the columns that several events have
+        name = column
+        if name in self._agg_df.columns:
+            name = "{}:{}".format(cls.name, column)
+            data_frame = data_frame.rename(columns={column: name}, level=0)
 
-        data_frame = self._pivot(cls, column)
+        self._columns[cls.name, column] = name
         self._agg_df = pd.concat(
             [self._agg_df, data_frame], axis=1)
 
         if self._fill:
             self._agg_df = self._agg_df.fillna(method="pad")
 
-        return self._agg_df[params[1]]
+        return self._agg_df[name]
+
+    def _get_class(self, event):
+        """Get the parser class of an event in an accessor"""
+
+        if event in self._pvars:
+            return self._pvars[event]
+        elif event in self.data.class_definitions:
+            return self.data.class_definitions[event]
+
+        try:
+            return str_to_attr(event)
+        except KeyError:
+            raise ValueError(
+                "Can't find parser class for event {}".format(event))
 
     def _parse_for_info(self, tokens):
         """Parse Action for inspecting data accessors"""
 
-        params = tokens[0]
-        cls = params[0]
-        column = params[1]
+        event, column = tokens[0]
+        cls = self._get_class(event)
         info = {}
         info["pivot"] = None
         info["pivot_values"] = None
 
-        if cls in self._pvars:
-            cls = self._pvars[cls]
-        elif cls in self.data.class_definitions:
-            cls = self.data.class_definitions[cls]
-        else:
-            cls = str_to_attr(cls)
-
         data_frame = self._get_data_frame(cls)
 
         info["class"] = cls
@@ -516,7 +519,9 @@ class Parser(object):
                 return self._pvars[params]
             except KeyError:
                 if isinstance(params, ParseResults):
-                    return self._agg_df[params[1]]
+                    event, column = params
+                    return self._agg_df[
+                        self._columns[self._get_class(event).name, column]]
                 raise ValueError("Unknown variable {}".format(params))
 
     def _parse_func(self, tokens):
-- 
2.43.0


From 0c4cb5c0a1a26210e17b5ee20cbe2a92f5364992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 36/87] fix: fill the data of the grammar in the order of time

Concatenating the columns of pivot values with different times doesn't
sort the index, so that values were carried back in time.
---
 trappy/stats/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index bdc73c5..e0796a9 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -464,7 +464,7 @@ class Parser(object):
 
         self._columns[cls.name, column] = name
         self._agg_df = pd.concat(
-            [self._agg_df, data_frame], axis=1)
+            [self._agg_df, data_frame], axis=1).sort_index()
 
         if self._fill:
             self._agg_df = self._agg_df.fillna(method="pad")
-- 
2.43.0


From 89733814485b16e9a9066cac02f2feaac3a04cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 37/87] fix: keep the columns of filtered events without rows
 in the grammar

---
 trappy/stats/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index e0796a9..e477817 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -551,7 +551,7 @@ class Parser(object):
 
         if self._filters:
             criterion = pd.Series([True] * len(data_frame),
-                                  index=data_frame.index)
+                                  index=data_frame.index, dtype=bool)
 
             for filter_col, wanted_vals in self._filters.items():
                 try:
-- 
2.43.0


From c5a961dc5987dc09b42af7bef20183893ed1d668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 38/87] fix: keep the data of windows that start before it

The data was dropped if there is none before the window and windows on
events without rows failed.
---
 trappy/plotter/Constraint.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 65f3de8..da4afcb 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -107,11 +107,13 @@ class Constraint(object):
         self._dup_resolved = False
         self._data = self.populate_data_frame()
 
-        if window:
+        if window and not self._data.empty:
             # We want to include the previous value before the window
             # and the next after the window in the dataset
-            min_idx = self._data.loc[:window[0]].index.max()
-            max_idx = self._data.loc[window[1]:].index.min()
+            before = self._data.loc[:window[0]].index
+            after = self._data.loc[window[1]:].index
+            min_idx = before.max() if len(before) else None
+            max_idx = after.min() if len(after) else None
             self._data = self._data.loc[min_idx:max_idx]
 
         self.result = self._apply()
-- 
2.43.0


From 9913d41683bd733ab2855cf44e9434184eb1df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 39/87] fix: permute every trace with every column and its
 template once

A trace or column given alone was repeated for every other one, every
trace got the template of its position, and different numbers of traces
and columns were refused.
---
 trappy/plotter/Constraint.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index da4afcb..728a23f 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -258,13 +258,17 @@ class ConstraintManager(object):
         self._constraints = []
 
         self._trace_expanded = False
-        self._expand()
         if zip_constraints:
+            self._expand()
             self._populate_zip_constraints()
         else:
+            # Every trace gets all the columns, so that only the columns and
+            # the templates have to match
+            self._max_len = max(self._lens[1:])
+            self._expand(skip_traces=True)
             self._populate_constraints()
 
-    def _expand(self):
+    def _expand(self, skip_traces=False):
         """This is really important. We need to
         meet the following criteria for constraint
         expansion:
@@ -287,19 +291,21 @@ class ConstraintManager(object):
                    Len[templates] != 1
             )
         """
-        min_len = min(self._lens)
+        lens = self._lens[1:] if skip_traces else self._lens
+        min_len = min(lens)
         max_pos_comp = [
             i for i,
             j in enumerate(
-                self._lens) if j != self._max_len]
+                self._lens) if j != self._max_len
+            and not (skip_traces and i == 0)]
 
-        if self._max_len == 1 and min_len != 1:
+        if min(self._lens) == 0:
             raise RuntimeError("Essential Arg Missing")
 
         if self._max_len > 1:
 
             # Are they all equal?
-            if len(set(self._lens)) == 1:
+            if len(set(lens)) == 1:
                 return
 
             if min_len > 1:
@@ -318,14 +324,13 @@ class ConstraintManager(object):
         In a multi-trace, multicolumn scenario, constraints are created for
         all the columns in each of the traces.  _populate_constraints()
         creates one constraint for the first trace and first column, the
-        next for the second trace and second column,...  This function
+        next for the first trace and second column,...  This function
         creates a constraint for every combination of traces and columns
-        possible.
+        possible.  Each column goes with its own template.
         """
 
         for trace_idx, trace in enumerate(self._ip_vec[0]):
-            for col in self._ip_vec[1]:
-                template = self._ip_vec[2][trace_idx]
+            for col, template in zip(self._ip_vec[1], self._ip_vec[2]):
                 constraint = Constraint(trace, self._pivot, col, template,
                                         trace_idx, self._filters, self.window)
                 self._constraints.append(constraint)
-- 
2.43.0


From 440018ef33dcf87a0ab94fdd44a29952b75c42c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:47 +0000
Subject: [PATCH 40/87] fix: draw every series of a static plot on the axes it
 belongs to

The axes were the position among all the series that have data, which
is another pivot's or trace's if one of them has none, and no axes at all
in a grid.  The entries of the legend and the colours were mixed up in the
same way and constraints of one trace shared their axes when concatenated.
---
 trappy/plotter/BarPlot.py    |  5 ++--
 trappy/plotter/Constraint.py |  1 +
 trappy/plotter/LinePlot.py   |  3 +-
 trappy/plotter/StaticPlot.py | 58 ++++++++++++++++++++++++++----------
 4 files changed, 48 insertions(+), 19 deletions(-)

diff --git a/trappy/plotter/BarPlot.py b/trappy/plotter/BarPlot.py
index 19df378..6c10adb 100644
--- a/trappy/plotter/BarPlot.py
+++ b/trappy/plotter/BarPlot.py
@@ -101,6 +101,7 @@ class BarPlot(StaticPlot):
         end_of_previous = [0] * max(len(x) for x in value_list)
 
         for i, (constraint, pivot) in enumerate(series_list):
+            series_index = self._series_index[constraint, pivot]
             result = constraint.result
             bar_anchor = np.arange(len(result[pivot].values))
             if not stacked:
@@ -111,7 +112,7 @@ class BarPlot(StaticPlot):
                 result[pivot].values,
                 bottom=end_of_previous,
                 width=bar_width,
-                color=self._cmap.cmap(i),
+                color=self._cmap.cmap(series_index),
                 **args_to_forward
             )
 
@@ -120,4 +121,4 @@ class BarPlot(StaticPlot):
 
             axis.set_title(self.make_title(constraint, pivot, permute, concat))
 
-            self.add_to_legend(i, line_2d_list[0], constraint, pivot, concat, permute)
+            self.add_to_legend(series_index, line_2d_list[0], constraint, pivot, concat, permute)
diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 728a23f..ef92ed6 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -252,6 +252,7 @@ class ConstraintManager(object):
 
         self._lens = list(map(len, self._ip_vec))
         self._max_len = max(self._lens)
+        self.num_traces = self._lens[0]
         self._pivot = pivot
         self._filters = filters
         self.window = window
diff --git a/trappy/plotter/LinePlot.py b/trappy/plotter/LinePlot.py
index 3e899ea..0f8bd0a 100644
--- a/trappy/plotter/LinePlot.py
+++ b/trappy/plotter/LinePlot.py
@@ -158,7 +158,8 @@ class LinePlot(StaticPlot):
 
     def plot_axis(self, axis, series_list, permute, concat, args_to_forward):
         """Internal Method called to plot data (series_list) on a given axis"""
-        for i, (constraint, pivot) in enumerate(series_list):
+        for constraint, pivot in series_list:
+            i = self._series_index[constraint, pivot]
             result = constraint.result
             line_2d_list = axis.plot(
                 result[pivot].index,
diff --git a/trappy/plotter/StaticPlot.py b/trappy/plotter/StaticPlot.py
index 332fff2..8e53f51 100644
--- a/trappy/plotter/StaticPlot.py
+++ b/trappy/plotter/StaticPlot.py
@@ -26,6 +26,7 @@ from trappy.plotter.Constraint import ConstraintManager
 from trappy.plotter.PlotLayout import PlotLayout
 from trappy.plotter.AbstractDataPlotter import AbstractDataPlotter
 from trappy.plotter.ColorMap import ColorMap
+from trappy.utils import listify
 from future.utils import with_metaclass
 
 
@@ -209,14 +210,18 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
         legend_labels = self._attr["_legend_labels"]
 
         if concat and pivot == AttrConf.PIVOT_VAL:
-            legend_labels[series_index] = self._attr["column"]
+            legend_labels[series_index] = ",".join(
+                str(col) for col in listify(self._attr["column"]))
         elif concat:
             legend_labels[series_index] = "{0}: {1}".format(
                 self._attr["pivot"],
                 self._attr["map_label"].get(pivot, pivot)
             )
         elif permute:
-            legend_labels[series_index] = constraint._template.name + ":" + constraint.column
+            label = str(constraint.column)
+            if constraint._template:
+                label = constraint._template.name + ":" + label
+            legend_labels[series_index] = label
         else:
             legend_labels[series_index] = str(constraint)
 
@@ -237,18 +242,36 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
 
         self._fig = self._layout.get_fig()
 
-        # Determine what constraint to plot and the corresponding pivot value
+        # Determine the axis of each constraint and pivot value with data and
+        # its position in the colours and the legend
         if permute:
-            legend_len = self.c_mgr._max_len
-            pivots = [y for _, y in pivot_vals]
-            c_dict = {c : str(c) for c in self.c_mgr}
-            c_list = sorted(c_dict.items(), key=lambda x: (x[1].split(":")[-1], x[1].split(":")[0]))
-            constraints = [c[0] for c in c_list]
-            cp_pairs = [(c, p) for c in constraints for p in sorted(set(pivots))]
+            legend_len = len(self.c_mgr) // self.c_mgr.num_traces
         else:
             legend_len = len_pivots if concat else len(self.c_mgr)
-            pivots = pivot_vals
-            cp_pairs = [(c, p) for c in self.c_mgr for p in pivots if p in c.result]
+
+        series = []
+        self._series_index = {}
+        for i, constraint in enumerate(self.c_mgr):
+            for j, pivot_val in enumerate(pivot_vals):
+                if permute:
+                    trace_idx, pivot = pivot_val
+                    if trace_idx != constraint.trace_index:
+                        continue
+                else:
+                    pivot = pivot_val
+
+                if pivot not in constraint.result:
+                    continue
+
+                if concat:
+                    axis_index, series_index = i, j
+                elif permute:
+                    axis_index, series_index = j, i % legend_len
+                else:
+                    axis_index, series_index = j, i
+
+                series.append((axis_index, constraint, pivot))
+                self._series_index[constraint, pivot] = series_index
 
         # Initialise legend data and colormap
         self._attr["_legend_handles"] = [None] * legend_len
@@ -261,8 +284,8 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
 
         # Group constraints/series with the axis they are to be plotted on
         figure_data = ddict(list)
-        for i, (constraint, pivot) in enumerate(cp_pairs):
-            axis = self._layout.get_axis(constraint.trace_index if concat else i)
+        for axis_index, constraint, pivot in series:
+            axis = self._layout.get_axis(axis_index)
             figure_data[axis].append((constraint, pivot))
 
         # Plot each axis
@@ -279,9 +302,12 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
             if self._attr["ylim"]:
                 axis.set_ylim(self._attr["ylim"])
 
-        # Show legend
-        legend = self._fig.legend(self._attr["_legend_handles"],
-                         self._attr["_legend_labels"],
+        # Show legend, without the series that have no data
+        entries = [(handle, label) for handle, label in
+                   zip(self._attr["_legend_handles"],
+                       self._attr["_legend_labels"]) if handle is not None]
+        legend = self._fig.legend([handle for handle, _ in entries],
+                         [label for _, label in entries],
                          loc='lower center',
                          ncol=self._attr["legend_ncol"],
                          borderaxespad=0.)
-- 
2.43.0


From 5acbc31a39b5988e32138edb76ab92a6fba6b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:47 +0000
Subject: [PATCH 41/87] fix: draw bars of series with different lengths

---
 trappy/plotter/BarPlot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/plotter/BarPlot.py b/trappy/plotter/BarPlot.py
index 6c10adb..2b363b1 100644
--- a/trappy/plotter/BarPlot.py
+++ b/trappy/plotter/BarPlot.py
@@ -19,7 +19,6 @@ implement a bar plot.
 """
 from __future__ import division
 from __future__ import unicode_literals
-from builtins import zip
 import numpy as np
 from trappy.plotter.StaticPlot import StaticPlot
 
@@ -110,14 +109,15 @@ class BarPlot(StaticPlot):
             line_2d_list = axis.bar(
                 bar_anchor,
                 result[pivot].values,
-                bottom=end_of_previous,
+                bottom=end_of_previous[:len(bar_anchor)],
                 width=bar_width,
                 color=self._cmap.cmap(series_index),
                 **args_to_forward
             )
 
             if stacked:
-                end_of_previous = [x + y for (x, y) in zip(end_of_previous, result[pivot].values)]
+                for j, value in enumerate(result[pivot].values):
+                    end_of_previous[j] += value
 
             axis.set_title(self.make_title(constraint, pivot, permute, concat))
 
-- 
2.43.0


From 068acaa03a536029890cf8db23674721fb8f90af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 42/87] fix: use exactly the requested colors in plots

Scaling the index to the colors could round to the previous color.
---
 trappy/plotter/ColorMap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/ColorMap.py b/trappy/plotter/ColorMap.py
index 4620fba..a3eee12 100644
--- a/trappy/plotter/ColorMap.py
+++ b/trappy/plotter/ColorMap.py
@@ -81,4 +81,8 @@ class ColorMap(object):
         rgb_map = ListedColormap(rgb_list, name='default_color_map', N=None)
         num_colors = len(rgb_list)
 
-        return cls(num_colors, cmap=rgb_map)
+        color_map = cls(num_colors, cmap=rgb_map)
+        # Use the index as it is, scaling it can round to the previous color
+        color_map.scalar_map.set_norm(clrs.NoNorm(vmin=0, vmax=num_colors))
+
+        return color_map
-- 
2.43.0


From edbb6bc26c5ab806b49be1d2b745173c7d8da015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:42 +0000
Subject: [PATCH 43/87] fix: plot signals of which only some have a color

---
 trappy/plotter/AbstractDataPlotter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/AbstractDataPlotter.py b/trappy/plotter/AbstractDataPlotter.py
index 9d69fe6..a298716 100644
--- a/trappy/plotter/AbstractDataPlotter.py
+++ b/trappy/plotter/AbstractDataPlotter.py
@@ -22,6 +22,7 @@ from builtins import object
 from abc import abstractmethod, ABCMeta
 from pandas import DataFrame
 import re
+from trappy.plotter.ColorMap import ColorMap
 from trappy.utils import listify
 from functools import reduce
 from future.utils import with_metaclass
@@ -127,4 +128,8 @@ class AbstractDataPlotter(with_metaclass(ABCMeta, object)):
             colors.append(color)
 
         if any(colors):
-            self._attr["colors"] = colors
+            # Signals without a color get one of the default gradient
+            gradient = ColorMap(len(colors))
+            self._attr["colors"] = [
+                color or [int(255 * c) for c in gradient.cmap(i)[:3]]
+                for i, color in enumerate(colors)]
-- 
2.43.0


From be5055e958879a68cc59e4668d26ee73c3bbf613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:32 +0000
Subject: [PATCH 44/87] fix: stack bars on top of missing values

---
 trappy/plotter/BarPlot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/BarPlot.py b/trappy/plotter/BarPlot.py
index 2b363b1..5f3bd53 100644
--- a/trappy/plotter/BarPlot.py
+++ b/trappy/plotter/BarPlot.py
@@ -116,7 +116,8 @@ class BarPlot(StaticPlot):
             )
 
             if stacked:
-                for j, value in enumerate(result[pivot].values):
+                # Nothing is stacked for missing values
+                for j, value in enumerate(result[pivot].fillna(0).values):
                     end_of_previous[j] += value
 
             axis.set_title(self.make_title(constraint, pivot, permute, concat))
-- 
2.43.0


From 4217cd679fe24ec8b35ab469d6a302b60b37cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 45/87] fix: merge the series of interactive plots with current
 pandas

Series.get_values() is gone, and the merged times were not sorted.
---
 trappy/plotter/ILinePlot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 779fb63..8fe1c0f 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -301,8 +301,7 @@ class ILinePlot(AbstractDataPlotter):
         # 2) Merge the data frames to obtain common indexes
         df_columns = list(data_dict.keys())
         dedup_data = [handle_duplicate_index(s) for s in data_dict.values()]
-        ret = pd.Series(dedup_data, index=df_columns)
-        merged_df = pd.concat(ret.get_values(), axis=1)
+        merged_df = pd.concat(dedup_data, axis=1).sort_index()
         merged_df.columns = df_columns
         # 3) Fill NaN values depending on drawstyle
         if self._attr["drawstyle"] == "steps-post":
-- 
2.43.0


From 9a1b5987f3f7609a1f4108bdcadffd486a039adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 46/87] fix: interpolate series of interactive plots in time

The times of the samples were ignored, which bent the lines between two
samples at the samples of other series.
---
 trappy/plotter/ILinePlot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 8fe1c0f..6484c6d 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -312,6 +312,6 @@ class ILinePlot(AbstractDataPlotter):
             merged_df = merged_df.ffill()
         else:
             # default
-            merged_df = merged_df.interpolate()
+            merged_df = merged_df.interpolate(method="index")
 
         return merged_df
-- 
2.43.0


From 12715f84b0061241868fba5a3d854ffcc1a3bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:08 +0000
Subject: [PATCH 47/87] fix: label concatenated interactive plots of one column
 with its name

---
 trappy/plotter/ILinePlot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 6484c6d..f252291 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -32,7 +32,7 @@ from trappy.plotter.ILinePlotGen import ILinePlotGen
 from trappy.plotter.AbstractDataPlotter import AbstractDataPlotter
 from trappy.plotter.ColorMap import ColorMap
 from trappy.plotter import IPythonConf
-from trappy.utils import handle_duplicate_index
+from trappy.utils import handle_duplicate_index, listify
 import pandas as pd
 
 if not IPythonConf.check_ipython():
@@ -272,7 +272,8 @@ class ILinePlot(AbstractDataPlotter):
             for pivot in pivot_vals:
                 if pivot in result:
                     if pivot == AttrConf.PIVOT_VAL:
-                        key = ",".join(self._attr["column"])
+                        key = ",".join(
+                            str(col) for col in listify(self._attr["column"]))
                     else:
                         key = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
 
-- 
2.43.0


From 2eeb212e483770531ab84e5d99f516a6054f29cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:08 +0000
Subject: [PATCH 48/87] fix: title and label permuted interactive plots like
 static ones

The title was that of the plot's position in the traces, which there may
not be, and data frames have neither a name nor a template.
---
 trappy/plotter/ILinePlot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index f252291..e1aa30a 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -225,12 +225,16 @@ class ILinePlot(AbstractDataPlotter):
         plot_index = 0
         for p_val in pivot_vals:
             data_dict = OrderedDict()
+            data_name = ""
             for constraint in self.c_mgr:
                 if permute:
                     trace_idx, pivot = p_val
                     if constraint.trace_index != trace_idx:
                         continue
-                    legend = constraint._template.name + ":" + constraint.column
+                    data_name = constraint.get_data_name()
+                    legend = str(constraint.column)
+                    if constraint._template:
+                        legend = constraint._template.name + ":" + legend
                 else:
                     pivot = p_val
                     legend = str(constraint)
@@ -240,7 +244,7 @@ class ILinePlot(AbstractDataPlotter):
                     data_dict[legend] = result[pivot]
 
             if permute:
-                title = self.traces[plot_index].name
+                title = data_name
             elif pivot != AttrConf.PIVOT_VAL:
                 title = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
             else:
-- 
2.43.0


From a21270cddb0025cc466a9ca12cf4834eaa815bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 49/87] fix: don't let names end the script of interactive
 plots

---
 trappy/plotter/ILinePlotGen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/ILinePlotGen.py b/trappy/plotter/ILinePlotGen.py
index cc86cbd..ce6e7de 100644
--- a/trappy/plotter/ILinePlotGen.py
+++ b/trappy/plotter/ILinePlotGen.py
@@ -262,7 +262,9 @@ class ILinePlotGen(object):
         if "xlim" in self._attr:
             fig_params["dateWindow"] = self._attr["xlim"]
 
-        fig_data = "var {}_data = {};".format(fig_name, json.dumps(fig_params))
+        # Don't let names end the script
+        fig_json = json.dumps(fig_params).replace("</", "<\\/")
+        fig_data = "var {}_data = {};".format(fig_name, fig_json)
 
         self._js_plot_data.append("<script>")
         self._js_plot_data.append(fig_data)
-- 
2.43.0


From 99b646600d119090d0b2d3bd78ab981dddb2af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 50/87] fix: drop the interval of a dropped switch under the
 name it was opened with

---
 trappy/plotter/Utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/Utils.py b/trappy/plotter/Utils.py
index 1d116e6..a6e14c6 100644
--- a/trappy/plotter/Utils.py
+++ b/trappy/plotter/Utils.py
@@ -83,8 +83,8 @@ def get_trace_event_data(trace, execnames=None, pids=None):
             warn_str = "Corrupted trace (dropped events) for PID {} at time {}". \
                        format(next_pid, index)
             warnings.warn(warn_str)
+            del data[pmap[next_pid]][-1]
             del pmap[next_pid]
-            del data[name][-1]
 
         if next_pid != 0 and not next_comm.startswith("migration"):
 
-- 
2.43.0


From 3d1b4d830fa23d985c4b3012a15c170f251ba191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:52 +0000
Subject: [PATCH 51/87] fix: plot the residency of tasks whose name is a number

---
 trappy/plotter/Utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/Utils.py b/trappy/plotter/Utils.py
index a6e14c6..bb4ce37 100644
--- a/trappy/plotter/Utils.py
+++ b/trappy/plotter/Utils.py
@@ -67,7 +67,8 @@ def get_trace_event_data(trace, execnames=None, pids=None):
     for index, row in data_frame.iterrows():
         prev_pid = row["prev_pid"]
         next_pid = row["next_pid"]
-        next_comm = row["next_comm"]
+        # A name that looks like a number is parsed as one
+        next_comm = str(row["next_comm"])
 
         if prev_pid in pmap:
             name = pmap[prev_pid]
-- 
2.43.0


From 8823225607e710025c4568ec23f9dc37483db56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 52/87] fix: don't let names end the script of event plots

---
 trappy/plotter/EventPlot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/EventPlot.py b/trappy/plotter/EventPlot.py
index ff7aee5..5af369a 100644
--- a/trappy/plotter/EventPlot.py
+++ b/trappy/plotter/EventPlot.py
@@ -141,7 +141,8 @@ class EventPlot(AbstractDataPlotter):
         graph["stride"] = AttrConf.EVENT_PLOT_STRIDE
         graph["colorMap"] = color_map
         graph["data"] = self._group_data_by_lanes(_data)
-        self._data = json.dumps(graph)
+        # Don't let names end the script
+        self._data = json.dumps(graph).replace("</", "<\\/")
 
         # Initialize the HTML, CSS and JS Components
         self._add_css()
-- 
2.43.0


From 0c7926bdbd174f3b3a2b9f36a33c642033a78085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 53/87] fix: honour the stride of an event plot

---
 trappy/plotter/EventPlot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/EventPlot.py b/trappy/plotter/EventPlot.py
index 5af369a..dda0cbf 100644
--- a/trappy/plotter/EventPlot.py
+++ b/trappy/plotter/EventPlot.py
@@ -138,7 +138,7 @@ class EventPlot(AbstractDataPlotter):
         graph["xDomain"] = domain
         graph["keys"] = sorted(keys, key=lambda x: avg[x], reverse=True)
         graph["showSummary"] = summary
-        graph["stride"] = AttrConf.EVENT_PLOT_STRIDE
+        graph["stride"] = stride or AttrConf.EVENT_PLOT_STRIDE
         graph["colorMap"] = color_map
         graph["data"] = self._group_data_by_lanes(_data)
         # Don't let names end the script
-- 
2.43.0


From 47c8f572f0a5d19a5ca45119be1badcf6c5bae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 54/87] fix: plot traces that don't tell their number of cpus

---
 trappy/plotter/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/__init__.py b/trappy/plotter/__init__.py
index d9d57c5..455f156 100644
--- a/trappy/plotter/__init__.py
+++ b/trappy/plotter/__init__.py
@@ -80,7 +80,13 @@ def plot_trace(trace,
             trace = trappy.FTrace(trace)
 
     data, procs, domain = Utils.get_trace_event_data(trace, execnames, pids)
+
+    # Not every trace tells its number of cpus
+    cpus = getattr(trace, "_cpus", None)
+    if cpus is None:
+        cpus = trace.sched_switch.data_frame["__cpu"].max() + 1
+
     trace_graph = EventPlot.EventPlot(data, procs, domain,
                                       lane_prefix="CPU :",
-                                      num_lanes=int(trace._cpus))
+                                      num_lanes=int(cpus))
     trace_graph.view()
-- 
2.43.0


From 9278600be153ddbed5d0498dcebd3dd0109d686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 55/87] fix: normalize the load of maps with clusters without
 events

---
 trappy/cpu_power.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trappy/cpu_power.py b/trappy/cpu_power.py
index 8117020..7c77528 100644
--- a/trappy/cpu_power.py
+++ b/trappy/cpu_power.py
@@ -178,6 +178,8 @@ class CpuInPower(Base):
         for cpumask in mapping_label:
             num_cpus = num_cpus_in_mask(cpumask)
             idx = dfr["cpus"] == cpumask
+            if not idx.any():
+                continue
             max_freq = max(dfr[idx]["freq"])
             load_series[idx] = load_series[idx] / (max_freq * num_cpus)
 
-- 
2.43.0


From 35e0b10619f0fc5380ff9e614c2848563b75c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 56/87] fix: find clusters whose mask looks like a number

---
 trappy/cpu_power.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/cpu_power.py b/trappy/cpu_power.py
index 7c77528..60e6d22 100644
--- a/trappy/cpu_power.py
+++ b/trappy/cpu_power.py
@@ -75,7 +75,8 @@ def pivot_with_labels(dfr, data_col_name, new_col_name, mapping_label):
     ret_series = {}
     for col in col_set:
         try:
-            label = mapping_label[col]
+            # A mask of only decimal digits is parsed as a number
+            label = mapping_label[col if col in mapping_label else str(col)]
         except KeyError:
             available_keys = ", ".join(mapping_label.keys())
             error_str = '"{}" not found, available keys: {}'.format(col,
@@ -177,7 +178,7 @@ class CpuInPower(Base):
         load_series *= dfr['freq']
         for cpumask in mapping_label:
             num_cpus = num_cpus_in_mask(cpumask)
-            idx = dfr["cpus"] == cpumask
+            idx = dfr["cpus"].astype(str) == cpumask
             if not idx.any():
                 continue
             max_freq = max(dfr[idx]["freq"])
-- 
2.43.0


From 051cc4ef8e027b4f785363e9573e9fa96bb58c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 57/87] fix: carry load and frequency values forward in the
 order of time

---
 trappy/ftrace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index f7427fa..4c95ee2 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -689,7 +689,8 @@ is part of the trace.
         for cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
             if devfreq_freqs is not None:
                 devfreq_freqs.name = "GPU"
-                allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs], axis=1)
+                allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs],
+                                     axis=1).sort_index()
             else:
                 allfreqs = cpu_allfreqs
 
@@ -711,7 +712,7 @@ is part of the trace.
         try:
             gpu_data = pd.DataFrame({"GPU":
                                      self.devfreq_in_power.data_frame["load"]})
-            load_data = pd.concat([load_data, gpu_data], axis=1)
+            load_data = pd.concat([load_data, gpu_data], axis=1).sort_index()
         except KeyError:
             pass
 
@@ -743,7 +744,7 @@ is part of the trace.
             gpu_load = gpu_dfr["load"] * gpu_dfr["freq"] / gpu_max_freq
 
             gpu_data = pd.DataFrame({"GPU": gpu_load})
-            load_data = pd.concat([load_data, gpu_data], axis=1)
+            load_data = pd.concat([load_data, gpu_data], axis=1).sort_index()
 
         load_data = load_data.fillna(method="pad")
         title = trappy.plot_utils.normalize_title("Normalized Utilization", title)
-- 
2.43.0


From 8ca743b904f35fc3e4b8e462dc9ef4ffd6c04d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 58/87] fix: tell input from output in frequency histograms

---
 trappy/ftrace.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 4c95ee2..0e9dee0 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -681,12 +681,13 @@ is part of the trace.
             devfreq_out_all_freqs = None
             devfreq_in_all_freqs = None
 
-        out_allfreqs = (self.cpu_out_power.get_all_freqs(map_label),
+        out_allfreqs = ("out", self.cpu_out_power.get_all_freqs(map_label),
                         devfreq_out_all_freqs, ax[0:in_base_idx])
-        in_allfreqs = (self.cpu_in_power.get_all_freqs(map_label),
+        in_allfreqs = ("in", self.cpu_in_power.get_all_freqs(map_label),
                        devfreq_in_all_freqs, ax[in_base_idx:])
 
-        for cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
+        for what, cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs,
+                                                        in_allfreqs):
             if devfreq_freqs is not None:
                 devfreq_freqs.name = "GPU"
                 allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs],
@@ -695,7 +696,7 @@ is part of the trace.
                 allfreqs = cpu_allfreqs
 
             allfreqs.fillna(method="pad", inplace=True)
-            _plot_freq_hists(allfreqs, "out", axis, self.name)
+            _plot_freq_hists(allfreqs, what, axis, self.name)
 
     def plot_load(self, mapping_label, title="", width=None, height=None,
                   ax=None):
-- 
2.43.0


From 8e929614f1455e206c2bac877300dc6573e2e0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 59/87] fix: name the GPU in frequency histograms

---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 0e9dee0..2d00e6d 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -689,7 +689,7 @@ is part of the trace.
         for what, cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs,
                                                         in_allfreqs):
             if devfreq_freqs is not None:
-                devfreq_freqs.name = "GPU"
+                devfreq_freqs.columns = ["GPU"]
                 allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs],
                                      axis=1).sort_index()
             else:
-- 
2.43.0


From fe49ad50adec97d84f2c39c3f046b6562aa35a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 60/87] fix: frequency histograms are in MHz

---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 2d00e6d..51629f0 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -58,7 +58,7 @@ def _plot_freq_hists(allfreqs, what, axis, title):
         this_title = trappy.plot_utils.normalize_title(this_title, title)
         xlim = (0, allfreqs[actor].max())
 
-        trappy.plot_utils.plot_hist(allfreqs[actor], ax, this_title, "KHz", 20,
+        trappy.plot_utils.plot_hist(allfreqs[actor], ax, this_title, "MHz", 20,
                              "Frequency", xlim, "default")
 
 SPECIAL_FIELDS_RE = re.compile(
-- 
2.43.0


From 950213a0e7b76eee5059f4f52e0c9f20abded801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 61/87] fix: only plot thermal zone 0 if asked to

---
 trappy/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 516ddf6..b931ce4 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -157,7 +157,7 @@ def plot_temperature(runs, width=None, height=None, ylim="range", tz_id=None):
 
     for run in runs:
         gov_dfr = run.thermal_governor.data_frame
-        if tz_id:
+        if tz_id is not None:
             gov_dfr = gov_dfr[gov_dfr["thermal_zone_id"] == tz_id]
 
         try:
-- 
2.43.0


From ff9a9537781744cc577dbc6b4adce8419c3cbbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 62/87] fix: plot the governor's temperature of the requested
 thermal zone only

---
 trappy/plot_utils.py | 3 ++-
 trappy/thermal.py    | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index b931ce4..fb16fbb 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -172,7 +172,8 @@ def plot_temperature(runs, width=None, height=None, ylim="range", tz_id=None):
                                          ax=ax, legend_label=run.name,
                                          tz_id=tz_id)
         except ValueError:
-            run.thermal_governor.plot_temperature(ax=ax, legend_label=run.name)
+            run.thermal_governor.plot_temperature(ax=ax, legend_label=run.name,
+                                                  tz_id=tz_id)
 
     post_plot_setup(ax, title="Temperature", ylim=ylim)
     plt.legend(loc="best")
diff --git a/trappy/thermal.py b/trappy/thermal.py
index f2af808..72a6336 100644
--- a/trappy/thermal.py
+++ b/trappy/thermal.py
@@ -134,12 +134,14 @@ class ThermalGovernor(Base):
     """The Pivot along which the data is orthogonal"""
 
     def plot_temperature(self, title="", width=None, height=None, ylim="range",
-                         ax=None, legend_label=""):
+                         ax=None, legend_label="", tz_id=None):
         """Plot the temperature"""
         from matplotlib import pyplot as plt
         from trappy.plot_utils import normalize_title, pre_plot_setup, post_plot_setup
 
         dfr = self.data_frame
+        if tz_id is not None:
+            dfr = dfr[dfr["thermal_zone_id"] == tz_id]
         curr_temp = dfr["current_temperature"]
         control_temp_series = (curr_temp + dfr["delta_temperature"]) / 1000
         title = normalize_title("Temperature", title)
-- 
2.43.0


From 29afb0a955ae9e0ad4fb4976e89b8a159ba40f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 63/87] fix: plot the temperature histograms of the runs with
 temperatures

---
 trappy/plot_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index fb16fbb..966a805 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -309,10 +309,8 @@ def plot_freq_hists(runs, map_label):
 
 def plot_temperature_hist(runs):
     """Plot temperature histograms for all the runs"""
-    num_runs = 0
-    for run in runs:
-        if len(run.thermal.data_frame):
-            num_runs += 1
+    runs = [run for run in runs if len(run.thermal.data_frame)]
+    num_runs = len(runs)
 
     if num_runs == 0:
         return
-- 
2.43.0


From 42b4589ebd0f67b3cfc8128114187cecb0afc30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 64/87] fix: plot weighted input power if not all the runs have
 weights

---
 trappy/plot_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 966a805..5f462f6 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -264,6 +264,9 @@ def plot_weighted_input_power(runs, actor_order, width=None, height=None):
         axis = [axis]
 
     for ax, run, weights in zip(axis, runs, actor_weights):
+        if not weights:
+            continue
+
         run.thermal_governor.plot_weighted_input_power(weights, title=run.name,
                                                        ax=ax)
 
-- 
2.43.0


From 7e9f2f6a48189618a539aec43706b85f24ff73a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 65/87] fix: sort the weights of more than ten cooling devices
 by number

---
 trappy/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 5f462f6..e1169ae 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -247,7 +247,7 @@ def plot_weighted_input_power(runs, actor_order, width=None, height=None):
         thermal_params = sysfs.get_parameters()
 
         sorted_weights = []
-        for param in sorted(thermal_params):
+        for param in sorted(thermal_params, key=lambda name: (len(name), name)):
             if re.match(r"cdev\d+_weight", param):
                 sorted_weights.append(thermal_params[param])
 
-- 
2.43.0


From a1679325ee4a745d8efb7df70c9c93b3bc513772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 66/87] fix: keep the last character of sysfs values without a
 newline

---
 trappy/wa/sysfs_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/wa/sysfs_extractor.py b/trappy/wa/sysfs_extractor.py
index 1401594..43f27ed 100644
--- a/trappy/wa/sysfs_extractor.py
+++ b/trappy/wa/sysfs_extractor.py
@@ -68,7 +68,8 @@ class SysfsExtractor(object):
             with open(property_path) as fin:
                 contents = fin.read()
                 # Trim trailing newline
-                contents = contents[:-1]
+                if contents.endswith("\n"):
+                    contents = contents[:-1]
 
                 try:
                     ret[property_name] = int(contents)
-- 
2.43.0


From 2c8864de5a065d1b6bcc34fc3886e3d0c312090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 67/87] fix: don't use DataFrame.from_items to print sysfs
 parameters

---
 trappy/wa/sysfs_extractor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trappy/wa/sysfs_extractor.py b/trappy/wa/sysfs_extractor.py
index 43f27ed..a11c4c0 100644
--- a/trappy/wa/sysfs_extractor.py
+++ b/trappy/wa/sysfs_extractor.py
@@ -91,7 +91,8 @@ class SysfsExtractor(object):
         if len(params) == 0:
             return
 
-        params_items = [(key, [value]) for key, value in sorted(params.items())]
-        dfr = pd.DataFrame.from_items(params_items, orient="index",
-                                      columns=["Value"])
+        params_items = sorted(params.items())
+        dfr = pd.DataFrame([value for _, value in params_items],
+                           index=[key for key, _ in params_items],
+                           columns=["Value"])
         display(HTML(dfr.to_html(header=False)))
-- 
2.43.0


From ca465fe7ff4fca0c511a18770988be94e130565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 68/87] fix: keep the benchmarks that only some of the combined
 results have

---
 trappy/wa/results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/wa/results.py b/trappy/wa/results.py
index 238d39d..762de89 100644
--- a/trappy/wa/results.py
+++ b/trappy/wa/results.py
@@ -159,8 +159,9 @@ def combine_results(data):
     """
 
     res_dict = {}
-    for benchmark in data[0].columns.levels[0]:
-        concat_objs = [d[benchmark] for d in data]
+    benchmarks = set(b for d in data for b in d.columns.get_level_values(0))
+    for benchmark in sorted(benchmarks):
+        concat_objs = [d[benchmark] for d in data if benchmark in d.columns]
         res_dict[benchmark] = pd.concat(concat_objs, axis=1)
 
     combined = pd.concat(res_dict.values(), axis=1, keys=res_dict.keys())
-- 
2.43.0


From 8ce9c01dbb7665bc1253e224ea235bb49b842b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 69/87] fix: plot results of which a benchmark was dropped

---
 trappy/wa/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/wa/results.py b/trappy/wa/results.py
index 762de89..16282fd 100644
--- a/trappy/wa/results.py
+++ b/trappy/wa/results.py
@@ -75,7 +75,7 @@ class Result(pd.DataFrame):
         plt.legend(bbox_to_anchor=(1.05, .5), loc=6)
 
     def plot_results(self):
-        for bench in self.columns.levels[0]:
+        for bench in self.columns.get_level_values(0).unique():
             self.plot_results_benchmark(bench)
 
 def get_run_number(metric):
-- 
2.43.0


From d496bf4f1231a817c15eabf6634bfc3d1196a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 70/87] fix: ignore missing scores when enlarging the axis

---
 trappy/wa/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/wa/results.py b/trappy/wa/results.py
index 16282fd..545cbf5 100644
--- a/trappy/wa/results.py
+++ b/trappy/wa/results.py
@@ -40,8 +40,8 @@ class Result(pd.DataFrame):
         (_, _, plot_y_min, plot_y_max) = plt.axis()
 
         concat_data = pd.concat(data[s] for s in data)
-        data_min = min(concat_data)
-        data_max = max(concat_data)
+        data_min = concat_data.min()
+        data_max = concat_data.max()
 
         # A good margin can be 10% of the data range
         margin = (data_max - data_min) / 10
-- 
2.43.0


From 1817879eca06f4154252d09e475cda8cf9fc0580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:15 +0000
Subject: [PATCH 71/87] fix: import the assets in every notebook that is
 exported

---
 trappy/nbexport/exporter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trappy/nbexport/exporter.py b/trappy/nbexport/exporter.py
index a55cc2d..ea82e86 100644
--- a/trappy/nbexport/exporter.py
+++ b/trappy/nbexport/exporter.py
@@ -46,6 +46,13 @@ class TrappyPlotterPreprocessor(Preprocessor):
         self.inlined_files = []
         self.sourced_libs = []
 
+    def preprocess(self, nb, resources):
+        """Import the files and libraries once in each notebook"""
+
+        self.inlined_files = []
+        self.sourced_libs = []
+        return super(TrappyPlotterPreprocessor, self).preprocess(nb, resources)
+
     def preprocess_cell(self, cell, resources, cell_index):
         """Check if cell has text/html output and filter it"""
 
-- 
2.43.0


From e28c3e54676535115daa8adede59b0f7b7cfc9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 72/87] fix: plot the temperature of a zone of runs without
 governor data

---
 trappy/plot_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index e1169ae..15c98e7 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -157,10 +157,11 @@ def plot_temperature(runs, width=None, height=None, ylim="range", tz_id=None):
 
     for run in runs:
         gov_dfr = run.thermal_governor.data_frame
-        if tz_id is not None:
-            gov_dfr = gov_dfr[gov_dfr["thermal_zone_id"] == tz_id]
 
         try:
+            if tz_id is not None:
+                gov_dfr = gov_dfr[gov_dfr["thermal_zone_id"] == tz_id]
+
             current_temp = gov_dfr["current_temperature"]
             delta_temp = gov_dfr["delta_temperature"]
             control_series = (current_temp + delta_temp) / 1000
-- 
2.43.0


From 27bacd154e46153387fbef8156355e5c5972a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 73/87] fix: read traces with bytes that are not UTF-8

The kernel doesn't care about the encoding of task names and markers, one
of them in another encoding made the whole trace unreadable.  Show those
bytes as escape sequences.
---
 trappy/ftrace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 51629f0..8b66e50 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -543,7 +543,8 @@ is part of the trace.
             cls_for_unique_word[unique_word] = trace_class
 
         try:
-            with io.open(trace_file, 'r', encoding='utf-8') as fin:
+            with io.open(trace_file, 'r', encoding='utf-8',
+                         errors='backslashreplace') as fin:
                 self.lines = 0
                 self.__populate_data(
                     fin, cls_for_unique_word)
@@ -979,7 +980,8 @@ class FTrace(GenericFTrace):
         metadata_keys = ["version", "cpus"]
         res = {}
 
-        with io.open(self.file_to_parse, 'r', encoding='utf-8') as fin:
+        with io.open(self.file_to_parse, 'r', encoding='utf-8',
+                     errors='backslashreplace') as fin:
             for line in fin:
                 if not metadata_keys:
                     return res
-- 
2.43.0


From 610b30a4e0a39a4d8778189246701ac98dd25131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 74/87] fix: explode the arrays of damaged lines only once

A line like {0}a={1 2} was exploded again and again, forever.
---
 trappy/base.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index d120eda..801d2be 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -68,15 +68,11 @@ def trace_parser_explode_array(string, array_lengths):
         "load0=1 load1=2 load2=0 load3=0"
     """
 
-    while True:
-        match = re.search(r"[^ ]+={[^}]+}", string)
-        if match is None:
-            break
-
-        to_explode = match.group()
-        col_basename = re.match(r"([^=]+)=", to_explode).groups()[0]
-        vals_str = re.search(r"{(.+)}", to_explode).groups()[0]
-        vals_array = vals_str.split(' ')
+    def explode(match):
+        # What has been exploded is not looked at again, as it may well look
+        # like yet another array if the line is damaged
+        col_basename = match.group(1).split("=")[0]
+        vals_array = match.group(2).split(' ')
 
         exploded_str = ""
         for (idx, val) in enumerate(vals_array):
@@ -87,13 +83,9 @@ def trace_parser_explode_array(string, array_lengths):
             for idx in range(vals_added, array_lengths[col_basename]):
                 exploded_str += "{}{}=0 ".format(col_basename, idx)
 
-        exploded_str = exploded_str[:-1]
-        begin_idx = match.start()
-        end_idx = match.end()
-
-        string = string[:begin_idx] + exploded_str + string[end_idx:]
+        return exploded_str[:-1]
 
-    return string
+    return re.sub(r"([^ ]+)={([^}]+)}", explode, string)
 
 class Base(object):
     """Base class to parse trace.dat dumps.
-- 
2.43.0


From 44af2ab7e777c81504f24a59a431ad9ddcabc5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 75/87] fix: keep the masks of load events if a line lacks its
 own

---
 trappy/sched.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/trappy/sched.py b/trappy/sched.py
index 98ac4a5..e9a8199 100644
--- a/trappy/sched.py
+++ b/trappy/sched.py
@@ -38,9 +38,21 @@ class SchedLoadAvgSchedGroup(Base):
         as 8 digits w/ leading 0
         """
         if self._cpu_mask_column in self.data_frame.columns:
-            dfr = self.data_frame[self._cpu_mask_column].apply('{:0>8}'.format)
+            dfr = self.data_frame[self._cpu_mask_column].apply(
+                self._format_mask)
             self.data_frame[self._cpu_mask_column] = dfr
 
+    @staticmethod
+    def _format_mask(mask):
+        if isinstance(mask, float):
+            # A line without its mask turns those that look like integers
+            # into floats
+            if mask != mask:
+                return mask
+            mask = int(mask)
+
+        return '{:0>8}'.format(mask)
+
 register_ftrace_parser(SchedLoadAvgSchedGroup, "sched")
 
 class SchedLoadAvgTask(Base):
-- 
2.43.0


From 009a3989f9b214af76b543eb2eac940283aed313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 76/87] fix: align signals at their first sample, not before it

---
 trappy/stats/Correlator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/stats/Correlator.py b/trappy/stats/Correlator.py
index 7da0cca..d797328 100644
--- a/trappy/stats/Correlator.py
+++ b/trappy/stats/Correlator.py
@@ -196,8 +196,9 @@ def align(s_x, s_y, mode="front"):
     :type mode: str
     """
 
-    p_x = np.flatnonzero(s_x)
-    p_y = np.flatnonzero(s_y)
+    # There's nothing to align before the first sample
+    p_x = np.flatnonzero(s_x.fillna(0))
+    p_y = np.flatnonzero(s_y.fillna(0))
 
     if not len(p_x) or not len(p_y):
         return s_x, s_y, 0
-- 
2.43.0


From a2de26d114bc01182ced9eb9e8b09c8eb8bc2f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:42 +0000
Subject: [PATCH 77/87] fix: give clusters without events an empty frame of
 frequencies

get_all_freqs_data() failed with a KeyError if there was no event of one
of the clusters in the trace, e.g. if it was unplugged.
---
 trappy/ftrace.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 8b66e50..39bb09b 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -596,8 +596,13 @@ is part of the trace.
             in_label = label + "_freq_in"
             out_label = label + "_freq_out"
 
-            cpu_inout_freq_dict = {in_label: cpu_in_freqs[label],
-                                   out_label: cpu_out_freqs[label]}
+            # A cluster that has no events has no frequencies either
+            cpu_inout_freq_dict = {}
+            if label in cpu_in_freqs:
+                cpu_inout_freq_dict[in_label] = cpu_in_freqs[label]
+            if label in cpu_out_freqs:
+                cpu_inout_freq_dict[out_label] = cpu_out_freqs[label]
+
             dfr = pd.DataFrame(cpu_inout_freq_dict).fillna(method="pad")
             ret.append((label, dfr))
 
@@ -783,7 +788,8 @@ is part of the trace.
                 this_ax = trappy.plot_utils.pre_plot_setup(width=width,
                                                         height=height)
 
-            dfr.plot(ax=this_ax)
+            if len(dfr.columns):
+                dfr.plot(ax=this_ax)
             trappy.plot_utils.post_plot_setup(this_ax, title=this_title)
 
 class FTrace(GenericFTrace):
-- 
2.43.0


From 711efd78a1d06074639bde3f0a3d6f4d0008ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:32 +0000
Subject: [PATCH 78/87] fix: lay out plots without a title

PlotLayout looked the title up among its options even if there was none,
so that Correlator.plot() always failed.
---
 trappy/plotter/PlotLayout.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trappy/plotter/PlotLayout.py b/trappy/plotter/PlotLayout.py
index 9bbb1c5..747ede0 100644
--- a/trappy/plotter/PlotLayout.py
+++ b/trappy/plotter/PlotLayout.py
@@ -98,6 +98,7 @@ class PlotLayout(object):
         """set the default attrs"""
         self._attr["width"] = AttrConf.WIDTH
         self._attr["length"] = AttrConf.LENGTH
+        self._attr["title"] = AttrConf.TITLE
 
     def get_2d(self, linear_val):
         """Convert Linear to 2D coordinates
-- 
2.43.0


From d0927904fa5ff25b36b1c5f189076c63a0b87f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:27 +0000
Subject: [PATCH 79/87] fix: resize event plots that have no summary

---
 trappy/plotter/js/EventPlot.js | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 14a0024..84f8461 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -435,7 +435,8 @@ var EventPlot = (function () {
 
                 resize_main(ePlot);
                 resize_info(ePlot);
-                resize_mini(ePlot);
+                if (showSummary)
+                    resize_mini(ePlot);
                 zoomed();
 
             }
@@ -458,8 +459,6 @@ var EventPlot = (function () {
 
         d3.select(ePlot.mini.node().parentNode)
             .attr("width", ePlot.div.width());
-        ePlot.iDesc.info_svg
-            .attr("width", ePlot.div.width());
         ePlot.mini.selectAll("line")
             .attr("x2", ePlot.width);
         ePlot.mini.call(ePlot.miniAxis);
@@ -480,8 +479,10 @@ var EventPlot = (function () {
         var width_box_one = infoProps.BOX_WIDTH_RATIO * ePlot.width;
         var width_box_two = ePlot.width - width_box_one;
 
+        ePlot.iDesc.info_svg
+            .attr("width", ePlot.div.width());
         ePlot.iDesc.info
-            .attr("width", width);
+            .attr("width", ePlot.width);
         ePlot.iDesc.guiderInfo
             .attr("width", width_box_one - infoProps.BOX_BUFFER);
         ePlot.iDesc.currentDisp
-- 
2.43.0


From 23da92fe920cae399ac18c4ecfc2ecb8f3ece208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 80/87] fix: give events in an event plot the colours asked for
 them

---
 trappy/plotter/js/EventPlot.js | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 84f8461..ccd3d5a 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -116,15 +116,16 @@ var EventPlot = (function () {
             var xMin = x.domain()[0];
             var xMax = x.domain()[1];
 
-            if (!d.colorMap) {
-                // Colour Ordinal scale. Uses Category20 Colors
-                colours = d3.scale.category20().range();
-            } else {
+            // Colour Ordinal scale. Uses Category20 Colors
+            var colours = d3.scale.category20().range();
+
+            if (d.colorMap) {
                 // Use colours provided by user
-                var colours = [];
-                for (var i in names)
-                    if (names[i] in d.colorMap)
-                        colours.push(d.colorMap[names[i]]);
+                colours = names.map(function (name, idx) {
+                    if (d.colorMap.hasOwnProperty(name))
+                        return d.colorMap[name];
+                    return colours[idx % colours.length];
+                });
             }
             colourAxis = d3.scale.ordinal()
                 .range(colours)
-- 
2.43.0


From cf323418e4175d1b6b896c14d1abad03527efe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 81/87] fix: keep the sizes of event plots on a page apart

---
 trappy/plotter/js/EventPlot.js | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index ccd3d5a..58ffdee 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -63,7 +63,7 @@ var EventPlot = (function () {
      */
     var getCurrentInfo = function(ePlot, x0, y0) {
 
-        for (name in ePlot.items) {
+        for (var name in ePlot.items) {
 
             var data = ePlot.items[name];
             var xMax = ePlot.zoomScale.domain()[1];
@@ -87,7 +87,8 @@ var EventPlot = (function () {
 
         var margin, brush, x, ext, yMain, chart, main,
             mainAxis,
-            itemRects, items, colourAxis, tip, lanes;
+            itemRects, items, colourAxis, tip, lanes,
+            width, mainHeight, brushScale;
 
         var process_chart_data = function (d) {
             items = d.data;
@@ -377,7 +378,7 @@ var EventPlot = (function () {
                      *  translate[0] = x.range()[0] - x(new_domain[0])) * zoom.scale()
                      */
 
-                    scale = (width) / x(x.domain()[0] +
+                    scale = ePlot.width / x(x.domain()[0] +
                         new_domain[1] -
                         new_domain[0]);
                     zoom.scale(scale);
-- 
2.43.0


From abe5bb5e703cc0bd32a51ae0a7febbd74a2c9cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:05 +0000
Subject: [PATCH 82/87] fix: zoom event plots by their size after a resize

---
 trappy/plotter/js/EventPlot.js | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 58ffdee..08fbcec 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -429,9 +429,15 @@ var EventPlot = (function () {
                 var width = div.width() - margin.left
                     - margin.right;
 
+                /* The same part of the data stays in view */
+                var scale = zoom.scale();
+                var translate = zoom.translate();
+                translate[0] *= width / ePlot.width;
+
                 /* Update scale ranges */
                 x.range([0, width]);
-                zoomScale.range([0, width]);
+                zoomScale.domain(x.domain()).range([0, width]);
+                zoom.x(zoomScale).scale(scale).translate(translate);
                 brushScale.range([0, width]);
                 ePlot.width = width;
 
-- 
2.43.0


From ccfb2282bcaa3ae24aca97cdbf520760fb9c4246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 83/87] fix: find the event under the pointer in its lane

---
 trappy/plotter/js/EventPlot.js | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 08fbcec..a455875 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -65,19 +65,19 @@ var EventPlot = (function () {
 
         for (var name in ePlot.items) {
 
-            var data = ePlot.items[name];
-            var xMax = ePlot.zoomScale.domain()[1];
-            var right = search_data(data, 0, xMax, 0, data.length - 1);
-            var left = search_data(data, 1, x0, 0, right);
+            // The events are grouped by lane
+            var data = ePlot.items[name][y0];
 
             if (data) {
+                var xMax = ePlot.zoomScale.domain()[1];
+                var right = search_data(data, 0, xMax, 0, data.length - 1);
+                var left = search_data(data, 1, x0, 0, right);
                 var candidate = data[left];
                 if (candidate[0] <= x0 &&
-                        candidate[1] >= x0 &&
-                        candidate[2] == y0)
+                        candidate[1] >= x0)
                     return {
                             name: name,
-                            info: candidate
+                            info: [candidate[0], candidate[1], y0]
                         };
             }
         }
-- 
2.43.0


From 5989317111a4032666ab58d08446fc10c80bf9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:43 +0000
Subject: [PATCH 84/87] fix: don't draw plots in the cells of a table left over

---
 trappy/plotter/ILinePlotGen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/ILinePlotGen.py b/trappy/plotter/ILinePlotGen.py
index ce6e7de..4ade03a 100644
--- a/trappy/plotter/ILinePlotGen.py
+++ b/trappy/plotter/ILinePlotGen.py
@@ -116,7 +116,9 @@ class ILinePlotGen(object):
         cell = '<td style="border-style: hidden;"><div class="ilineplot" id="{}"></div></td>'.format(fig_name)
 
         self._html.append(cell)
-        self._js.append(graph_js)
+        # The last row can have cells without a plot
+        if self._fig_index <= self.num_plots:
+            self._js.append(graph_js)
 
     def _add_legend_cell(self, fig_name):
         """Add HTML table cell for the legend"""
-- 
2.43.0


From f34b5f796f6d586ed3284c406da4485f3e5da55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:05 +0000
Subject: [PATCH 85/87] fix: don't take libraries that were received in part as
 installed

---
 trappy/plotter/IPythonConf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/IPythonConf.py b/trappy/plotter/IPythonConf.py
index 173ed2d..c4787da 100644
--- a/trappy/plotter/IPythonConf.py
+++ b/trappy/plotter/IPythonConf.py
@@ -64,8 +64,11 @@ def install_http_resource(url, to_path):
     :param to_path: Destination path on the disk
     :type to_path: str
     """
+    # A file that is there counts as installed, so don't leave a part of it
+    part_path = to_path + ".part"
     try:
-        urllib.request.urlretrieve(url, filename=to_path)
+        urllib.request.urlretrieve(url, filename=part_path)
+        os.rename(part_path, to_path)
     except IOError:
         raise ImportError("Could not receive Web Resource {}"
                           .format(to_path))
-- 
2.43.0


From ee2e0fc9e869d1ae71aaddd3b9831b779c1f534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:46 +0000
Subject: [PATCH 86/87] fix: cache what was read with the trace it was read
 from

The checksum of the trace was computed after the trace had been parsed, and
only the metadata of the cache had it: data read from a trace that was being
replaced, or by two processes from two of its versions, ended up in the cache
of the other version.
---
 trappy/ftrace.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 39bb09b..ff16957 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -201,8 +201,12 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
     def _get_cache_key(self, trace_class):
         # The class name, which names the file, doesn't say which lines the
-        # class was looking for
+        # class was looking for. Nor does the metadata say which trace they
+        # are from: somebody else may have opened another trace at the same
+        # path and have replaced it
         key = {
+            "trace_md5sum": self._trace_md5sum,
+            "parser": self.__class__.__name__,
             "unique_word": trace_class.unique_word,
             "parse_raw": bool(trace_class.parse_raw),
         }
@@ -235,15 +239,12 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                 warnings.warn(warnstr)
                 return False
 
-        with open(self.trace_path, 'rb') as f:
-            trace_md5sum = hashlib.md5(f.read()).hexdigest()
-
         if cache_metadata["parser"] != self.__class__.__name__:
             warnstr = "Cached data is from another parser, invalidating cache."
             warnings.warn(warnstr)
             return False
 
-        if cache_metadata["md5sum"] != trace_md5sum:
+        if cache_metadata["md5sum"] != self._trace_md5sum:
             warnstr = "Cached data is from another trace, invalidating cache."
             warnings.warn(warnstr)
             return False
@@ -291,9 +292,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         # Additionnal metadata can be saved by overriding this method
         metadata = {}
 
-        metadata["md5sum"] = hashlib.md5(
-            open(self.trace_path, 'rb').read()
-        ).hexdigest()
+        metadata["md5sum"] = self._trace_md5sum
         metadata["parser"] = self.__class__.__name__
         metadata["basetime"] = self.basetime
         metadata["endtime"] = self.endtime
@@ -351,6 +350,11 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
     def _do_parse(self):
         if not self.__class__.disable_cache:
+            # What has been cached is from the trace as it was before anything
+            # of it was read, in case it changes in the meantime
+            with open(self.trace_path, 'rb') as f:
+                self._trace_md5sum = hashlib.md5(f.read()).hexdigest()
+
             self._load_cache()
 
             # Check if cache data is enough
-- 
2.43.0


From 59572385f961dda46620fdac94f611febb51e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:32 +0000
Subject: [PATCH 87/87] fix: bring all operands to common times by the same
 method

Only the columns that an expression referred to last were reindexed with the
method and limit given to the parser. Those before were padded without any
limit, or left with holes if the parser had to leave NaNs alone, so the result
depended on the order of the operands.
---
 trappy/stats/grammar.py | 49 ++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index e477817..e669b36 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -24,6 +24,7 @@ from builtins import object
 from pyparsing import Literal, delimitedList, Optional, oneOf, nums,\
     alphas, alphanums, Forward, Word, opAssoc, operatorPrecedence, Combine, Group,\
     ParseResults
+from collections import OrderedDict
 import importlib
 import pandas as pd
 import numpy as np
@@ -347,6 +348,8 @@ class Parser(object):
         self._agg_df = pd.DataFrame()
         # The name in _agg_df of each (event, column)
         self._columns = {}
+        # The series of each (name in _agg_df, pivot value) as they are in data
+        self._series = OrderedDict()
         self._pivot_set = set()
         self._limit = kwargs.get("limit", StatConf.REINDEX_LIMIT_DEFAULT)
         self._method = kwargs.get("method", StatConf.REINDEX_METHOD_DEFAULT)
@@ -413,38 +416,33 @@ class Parser(object):
         return self._parse_expr.parseString(expr)[0]
 
     def _pivot(self, cls, column):
-        """Pivot Data for concatenation"""
+        """Get the series of each pivot value"""
 
         data_frame = self._get_data_frame(cls)
         if data_frame.empty:
             raise ValueError("No events found for {}".format(cls.name))
 
-        new_index = self._agg_df.index.union(data_frame.index)
-
         if hasattr(cls, "pivot") and cls.pivot:
             pivot = cls.pivot
-            pivot_vals = list(np.unique(data_frame[pivot].values))
-            data = {}
+            return [(val, data_frame[data_frame[pivot] == val][column])
+                    for val in np.unique(data_frame[pivot].values)]
 
+        return [(StatConf.GRAMMAR_DEFAULT_PIVOT, data_frame[column])]
 
-            for val in pivot_vals:
-                data[val] = data_frame[data_frame[pivot] == val][[column]]
-                if len(self._agg_df):
-                    data[val] = data[val].reindex(
-                        index=new_index,
-                        method=self._method,
-                        limit=self._limit)
+    def _reindex(self):
+        """Bring all the series used so far to the union of their times"""
 
-            return pd.concat(data, axis=1).swaplevel(0, 1, axis=1)
+        index = None
+        for series in self._series.values():
+            index = series.index if index is None else index.union(series.index)
 
-        if len(self._agg_df):
-            data_frame = data_frame.reindex(
-                index=new_index,
-                method=self._method,
-                limit=self._limit)
+        self._agg_df = pd.concat(
+            [series.reindex(index=index, method=self._method, limit=self._limit)
+             for series in self._series.values()],
+            axis=1, keys=list(self._series))
 
-        return pd.concat({StatConf.GRAMMAR_DEFAULT_PIVOT: data_frame[
-                         [column]]}, axis=1).swaplevel(0, 1, axis=1)
+        if self._fill:
+            self._agg_df = self._agg_df.fillna(method="pad")
 
     def _pre_process(self, tokens):
         """Pre-process accessors for super-indexing"""
@@ -454,21 +452,18 @@ class Parser(object):
         if (cls.name, column) in self._columns:
             return self._agg_df[self._columns[cls.name, column]]
 
-        data_frame = self._pivot(cls, column)
+        pivoted = self._pivot(cls, column)
 
         # Keep apart the columns that several events have
         name = column
         if name in self._agg_df.columns:
             name = "{}:{}".format(cls.name, column)
-            data_frame = data_frame.rename(columns={column: name}, level=0)
 
         self._columns[cls.name, column] = name
-        self._agg_df = pd.concat(
-            [self._agg_df, data_frame], axis=1).sort_index()
-
-        if self._fill:
-            self._agg_df = self._agg_df.fillna(method="pad")
+        for val, series in pivoted:
+            self._series[name, val] = series
 
+        self._reindex()
         return self._agg_df[name]
 
     def _get_class(self, event):
-- 
2.43.0

