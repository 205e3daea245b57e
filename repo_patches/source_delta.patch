From 0e637b7c90fe4a1ca67c1f17774983ba948f440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 01/73] fix: do not share in-memory cached weights between
 inventories

---
 src/earthkit/regrid/backends/db.py    | 1 +
 src/earthkit/regrid/utils/memcache.py | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 79d4c29..1fb959d 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -473,6 +473,7 @@ class MatrixDb:
             create=self._create_matrix,
             find_entry=self.find_entry,
             create_from_entry=self._create_matrix_from_entry,
+            source=self._accessor.path(),
             **kwargs,
         )
 
diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index d65dd4b..b396356 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -220,7 +220,7 @@ class MemoryCache:
         self.lock = threading.Lock()
         self.update()
 
-    def get(self, *args, create=None, find_entry=None, create_from_entry=None):
+    def get(self, *args, create=None, find_entry=None, create_from_entry=None, source=None):
         if not self.policy.has_cache():
             return create(*args)
 
@@ -228,7 +228,8 @@ class MemoryCache:
             if not self.policy.has_cache():
                 return create(*args)
 
-            key = make_sha(args)
+            # the same grids can be available with different weights in different sources
+            key = make_sha([source, *args])
             if key in self.items:
                 item = self.items[key]
                 # TODO: move_to_end is only required for the "lru" policy
-- 
2.43.0


From 18af10bed3a027f108d4aab74c0739faa3237a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 02/73] fix: only publish the inventory index when it is fully
 loaded

---
 src/earthkit/regrid/backends/db.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 1fb959d..ff55ded 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -439,9 +439,11 @@ class MatrixDb:
         return self._index
 
     def _load_index(self):
-        self._index = MatrixIndex()
+        # only publish the index when it is fully loaded
+        index = MatrixIndex()
         path = self._accessor.index_path()
-        self._index.load(path)
+        index.load(path)
+        self._index = index
 
     def _method_alias(self, method):
         for k, v in _METHOD_ALIAS.items():
-- 
2.43.0


From 0bc221108d5515a487ac8ebcb05f502f6be17794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 03/73] fix: raise ValueError for an unlimited size in limited
 memory cache policies

---
 src/earthkit/regrid/utils/memcache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index b396356..a26ffff 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -114,10 +114,10 @@ class LRUPolicy(MemoryCachePolicy):
     name = "lru"
 
     def check(self):
-        if self.cache.max_mem <= 0:
-            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
         if self.cache.max_mem is None:
             raise ValueError(f"Cannot use {self.name} policy with max_mem=None")
+        if self.cache.max_mem <= 0:
+            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
 
     def reduce(self, target_size):
         # must be called within a lock
@@ -142,10 +142,10 @@ class LargestPolicy(MemoryCachePolicy):
     name = "largest"
 
     def check(self):
-        if self.cache.max_mem <= 0:
-            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
         if self.cache.max_mem is None:
             raise ValueError(f"Cannot use {self.name} policy with max_mem=None")
+        if self.cache.max_mem <= 0:
+            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
 
     def reduce(self, target_size):
         # must be called within a lock
-- 
2.43.0


From fab181449756c5c2725eabdece458a3272e6bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 04/73] fix: leave the config unchanged when set() or reset()
 is rejected

---
 src/earthkit/regrid/utils/config.py | 41 +++++++++++++++++++----------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 71823f0..40dc95d 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -344,18 +344,23 @@ class Config:
             value: [type]
                 [description]
         """
-        if len(args) == 0:
-            assert len(kwargs) > 0
-            for k, v in kwargs.items():
-                self._set(k.replace("_", "-"), v)
-            self._changed()
-        else:
-            if len(args) == 1 and isinstance(args[0], dict):
-                for k, v in args[0].items():
-                    self._set(k, v)
+        previous = dict(self._config)
+        try:
+            if len(args) == 0:
+                assert len(kwargs) > 0
+                for k, v in kwargs.items():
+                    self._set(k.replace("_", "-"), v)
             else:
-                self._set(*args, **kwargs)
-        self._changed()
+                if len(args) == 1 and isinstance(args[0], dict):
+                    for k, v in args[0].items():
+                        self._set(k, v)
+                else:
+                    self._set(*args, **kwargs)
+        except Exception:
+            # all or nothing: do not keep the options set before the invalid one
+            self._config = previous
+            raise
+        self._changed(previous)
 
     def _set(self, name: str, *args, **kwargs):
         """[summary]
@@ -437,6 +442,7 @@ class Config:
                 does not have a default, it is removed. If `None` is passed, all config options are
                 reset to their default values. Defaults to None.
         """
+        previous = dict(self._config)
         if name is None:
             self._config = dict(**DEFAULTS)
         else:
@@ -454,7 +460,7 @@ class Config:
                         msg += " Still, the value reset here will be saved to the config file."
                     warnings.warn(msg)
                 self._config[name] = DEFAULTS[name]
-        self._changed()
+        self._changed(previous)
 
     @forward
     def __repr__(self):
@@ -497,10 +503,17 @@ class Config:
         for k, v in sorted(self._config.items()):
             yield ((k, v, CONFIG_AND_HELP.get(k)))
 
-    def _changed(self):
+    def _changed(self, previous):
+        try:
+            self._notify()
+        except Exception:
+            # the change was rejected by an observer: restore the previous config,
+            # which must not be overwritten in the config file
+            self._config = previous
+            self._notify()
+            raise
         if self._auto_save_config:
             self._save()
-        self._notify()
 
     def _notify(self):
         if self._notify_enabled:
-- 
2.43.0


From 497ff2bd4a9dc0af89d57545bb0bd5876a56f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 05/73] fix: do not leave a rejected temporary config in place

---
 src/earthkit/regrid/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 40dc95d..fa09fc9 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -232,8 +232,8 @@ for k, v in CONFIG_AND_HELP.items():
 def new_config(s):
     """Context manager to create new config"""
     CONFIG._stack.append(s)
-    CONFIG._notify()
     try:
+        CONFIG._notify()
         yield None
     finally:
         CONFIG._stack.pop()
-- 
2.43.0


From 232f858b6adfdada26faa3e53071d7866557e2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 06/73] fix: save the config file atomically

---
 src/earthkit/regrid/utils/config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index fa09fc9..8464101 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -255,8 +255,12 @@ def save_config(path, config):
     from filelock import FileLock
 
     lock = path + ".lock"
+    # write the file next to the target then move it into place, so the target is never
+    # left truncated or half-written
+    target = os.path.realpath(path)
+    tmp = f"{target}.{os.getpid()}.tmp"
     with FileLock(lock):
-        with open(path, "w") as f:
+        with open(tmp, "w") as f:
             print("# This file is automatically generated", file=f)
             print(file=f)
 
@@ -273,6 +277,7 @@ def save_config(path, config):
             print(file=f)
             yaml.dump({"version": VERSION}, f, default_flow_style=False)
             print(file=f)
+        os.replace(tmp, target)
     try:
         os.unlink(lock)
     except OSError:
-- 
2.43.0


From cc167984328b1675f73affbe3952add786517f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 07/73] fix: only store plain values in the config so it can be
 loaded back

---
 src/earthkit/regrid/utils/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 8464101..621d70f 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -426,7 +426,10 @@ class Config:
             assert len(kwargs) == 0
             value = args[0]
             # Check if value is properly formatted for getter
-            getattr(self, getter)(name, value, none_ok)
+            checked = getattr(self, getter)(name, value, none_ok)
+            if value is not None and type(value) not in (str, int, float, bool):
+                # e.g. pathlib.Path, which cannot be loaded back from the config file
+                value = checked
         else:
             if not isinstance(value, klass):
                 raise TypeError("Config option '%s' must be of type '%s'" % (name, klass))
-- 
2.43.0


From 8376e865648035c05852b8cbc6c1fd95c8680b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 08/73] fix: interpret boolean config options given as strings

---
 src/earthkit/regrid/utils/config.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 621d70f..bc49fe5 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -193,10 +193,12 @@ CONFIG_AND_HELP = {
     "check-out-of-date-urls": _(
         False,
         "Perform a HTTP request to check if the remote version of a cache file has changed",
+        getter="_as_bool",
     ),
     "download-out-of-date-urls": _(
         False,
         "Re-download URLs when the remote version of a cached file as been changed",
+        getter="_as_bool",
     ),
     "maximum-weights-memory-cache-size": _(
         "500MB",
@@ -218,6 +220,7 @@ CONFIG_AND_HELP = {
         """Raise exception if the weights cannot be fitted into the in-memory cache.
         Only used when ``weights-memory-cache-policy`` is ``"largest"`` or ``"lru"``.
         See :ref:`mem_cache` for more information.""",
+        getter="_as_bool",
     ),
 }
 
@@ -575,6 +578,18 @@ class Config:
             value = value.replace('"', "").replace("'", "").strip()
         return int(value)
 
+    def _as_bool(self, name, value, none_ok):
+        if value is None and none_ok:
+            return None
+        if isinstance(value, str):
+            v = value.replace('"', "").replace("'", "").strip().lower()
+            if v in ("true", "yes", "on", "1"):
+                return True
+            if v in ("false", "no", "off", "0", ""):
+                return False
+            raise ValueError(f"{name}: invalid boolean {value}")
+        return bool(value)
+
     def _as_list(self, name, value, none_ok):
         if value is None and none_ok:
             return []
-- 
2.43.0


From 2dd2d998ad13e8710010257a81c8764c0043ef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 09/73] fix: purge all the cache entries, including the empty
 files

---
 src/earthkit/regrid/utils/caching.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 582b31e..c973eac 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -401,7 +401,7 @@ class CacheManager(threading.Thread):
         # _find_orphans()
         # _update_cache(clean=True)
 
-        if bytes <= 0:
+        if bytes <= 0 and not purge:
             return 0
 
         LOG.warning("earthkit-regrid cache: trying to free %s", humanize.bytes(bytes))
@@ -417,7 +417,7 @@ class CacheManager(threading.Thread):
             ):
                 for entry in db.execute(stmt, (latest,)):
                     total += self._delete_entry(entry)
-                    if total >= bytes:
+                    if total >= bytes and not purge:
                         LOG.warning(
                             "earthkit-regrid cache: freed %s from cache",
                             humanize.bytes(bytes),
-- 
2.43.0


From bf08fc7e34eb818ed935f0e0484603a716798488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 10/73] fix: summary_dump_database() with entries being created

---
 src/earthkit/regrid/utils/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index c973eac..d392d1e 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -555,7 +555,8 @@ class CacheManager(threading.Thread):
         count = len(result)
         size = 0
         for r in result:
-            size += r.get("size", 0)
+            # size is not yet known for files being created
+            size += r["size"] or 0
         return count, size
 
 
-- 
2.43.0


From c956a9f2583bde41c971ae93d9a01a4ca7500d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 11/73] fix: remove the cache entry when the file could not be
 created

---
 src/earthkit/regrid/utils/caching.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index d392d1e..6a5b392 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -248,6 +248,7 @@ class CacheManager(threading.Thread):
                     path,
                 ),
             )
+            return db.execute("SELECT changes()").fetchone()[0]
 
     def _update_cache(self, clean=False):
         """Update cache size and size of each file in the database ."""
@@ -1020,10 +1021,18 @@ def cache_file(
             lock = path + ".lock"
             with FileLock(lock):
                 if not os.path.exists(path):  # Check again, another thread/process may have created the file
-                    owner_data = create(path + ".tmp", args)
-                    os.rename(path + ".tmp", path)
+                    try:
+                        owner_data = create(path + ".tmp", args)
+                        os.rename(path + ".tmp", path)
+                    except BaseException:
+                        # entries without a file would prevent newer ones from being evicted
+                        CACHE._decache_file(path)
+                        raise
                     LOG.info(f"cache file created: {path=}")
-                    CACHE._update_entry(path, owner_data)
+                    if not CACHE._update_entry(path, owner_data):
+                        # the entry was removed while the file was being created
+                        CACHE._register_cache_file(path, owner, args)
+                        CACHE._update_entry(path, owner_data)
                     CACHE.check_size()
 
             try:
-- 
2.43.0


From a35c2d51675af99eb3e055cd42aa90476adb1aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 12/73] fix: use the temporary-directory-root option with the
 off cache policy

---
 src/earthkit/regrid/utils/caching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 6a5b392..2b0f1db 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -566,6 +566,7 @@ class CachePolicy(metaclass=ABCMeta):
         "cache-policy",
         "user-cache-directory",
         "temporary-cache-directory-root",
+        "temporary-directory-root",
         "maximum-cache-disk-usage",
         "maximum-cache-size",
     ]
-- 
2.43.0


From 2b8ac7f16d638bc19daf2eb5216d5c344002ad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 13/73] fix: pass the nearest neighbour options to MIR

---
 src/earthkit/regrid/backends/mir.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/backends/mir.py b/src/earthkit/regrid/backends/mir.py
index 98fb6a0..be2ee6b 100644
--- a/src/earthkit/regrid/backends/mir.py
+++ b/src/earthkit/regrid/backends/mir.py
@@ -40,6 +40,11 @@ class MirBackend(Backend):
             kwargs["area"] = MirBackend.normalise_area(area)
         return grid, kwargs
 
+    @staticmethod
+    def job_options(kwargs):
+        # MIR does not know "automatic", it makes its own choice when the option is not set
+        return {k: v for k, v in kwargs.items() if k != "nearest_method" or v != "automatic"}
+
     def regrid(
         self,
         values,
@@ -61,14 +66,13 @@ class MirBackend(Backend):
             "nclosest": nclosest,
         }
 
-        out_grid, kwargs = self.adjust_options(out_grid, {})
+        out_grid, kwargs = self.adjust_options(out_grid, self.job_options(kwargs))
 
         input = mir.ArrayInput(values, in_grid)
         out = mir.ArrayOutput()
 
         job = mir.Job()
         job.set("grid", out_grid)
-        job.set("interpolation", interpolation)  # NOTE: needs generalisation
         for k, v in kwargs.items():
             job.set(k, v)
 
@@ -99,7 +103,7 @@ class MirBackend(Backend):
             "nclosest": nclosest,
         }
 
-        out_grid, kwargs = self.adjust_options(grid, kwargs)
+        out_grid, kwargs = self.adjust_options(grid, self.job_options(kwargs))
 
         in_data = mir.GribMemoryInput(message)
         out = BytesIO()
-- 
2.43.0


From 66eb3412df67e5d20a67ac7ae04de8cd0a284fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 14/73] fix: accept a str target in mir_cached_matrix_to_file()

---
 src/earthkit/regrid/utils/mir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 1b70467..b6a6c6a 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -66,7 +66,7 @@ def mir_cached_matrix_to_array(path):
 
 
 def mir_cached_matrix_to_file(path, target):
-    if not target.suffix == ".npz":
+    if not Path(target).suffix == ".npz":
         raise ValueError("target must end with .npz")
 
     z = mir_cached_matrix_to_array(path)
-- 
2.43.0


From 580f04a6bec3cb3dc1075c255582309eca4f23c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 15/73] fix: make weights from latitudes and longitudes

---
 src/earthkit/regrid/utils/mir.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index b6a6c6a..14c506c 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -103,7 +103,8 @@ def _griddef_from_latlon(lat, lon, dir=None):
 
     name = Path(hash + ".griddef")
     if dir:
-        name = dir / name
+        name = Path(dir) / name
+        name.parent.mkdir(parents=True, exist_ok=True)
 
     if not name.exists():
         mir_write_latlon_to_griddef(name, lat, lon)
-- 
2.43.0


From d11363708b9cdbc0d3b91abefe4cb56066197b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 16/73] fix: do not mix up grid definitions of long coordinate
 arrays

---
 src/earthkit/regrid/utils/mir.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 14c506c..b65abae 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -98,7 +98,8 @@ def _griddef_from_latlon(lat, lon, dir=None):
     import hashlib
 
     version = 1
-    coord = str(version) + str(lat) + str(lon)
+    # str() would truncate arrays
+    coord = repr((version, [float(x) for x in lat], [float(x) for x in lon]))
     hash = hashlib.md5(coord.encode()).hexdigest()
 
     name = Path(hash + ".griddef")
-- 
2.43.0


From d90f7b11c42b7dae548c156e3dc03739873bbcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 17/73] fix: use the weights when the output grid has no shape
 in the index

---
 src/earthkit/regrid/backends/db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index ff55ded..c80024c 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -485,7 +485,8 @@ class MatrixDb:
     def _create_matrix_from_entry(self, entry):
         if entry is not None:
             z = self.load_matrix(entry)
-            return z, entry["output"]["shape"]
+            # the shape is not always available in the index, e.g. for HEALPix
+            return z, entry["output"].get("shape", [z.shape[0]])
         return None, None
 
     def find_entry(self, gridspec_in, gridspec_out, method):
-- 
2.43.0


From 32cb75c6285a393f03747a3e07c08f1cfd80a15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 18/73] fix: do not take reduced Gaussian sub-areas for global
 grids

---
 src/earthkit/regrid/gridspec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index 0a87c03..ae67dec 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -320,7 +320,9 @@ class ReducedGGGridSpec(GridSpec):
 
     def is_global_ns(self):
         if self._global_ns is None:
-            self._global_ns = True
+            # the first latitude is closer to the pole than half of the latitude spacing
+            north = FULL_GLOBE / 4 * (1 - 1 / self.N)
+            self._global_ns = self["area"][0] > north and self["area"][2] < -north
         return self._global_ns
 
     def _inspect_grid(self):
-- 
2.43.0


From 58ec399c4961d01bd1bb04f7245a75e2589700a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 19/73] fix: check the remote inventory again when its update
 failed

---
 src/earthkit/regrid/backends/db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index c80024c..cb3a4bc 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -116,6 +116,8 @@ class UrlAccessor(MatrixAccessor):
 
     def reload(self, force=False):
         self._index_path = self._get_index(check_remote=True, force=force)
+        # only when it was successful, otherwise it would never be tried again
+        self._checked_remote = True
 
     def index_path(self):
         if self._index_path is None or not os.path.exists(self._index_path):
@@ -139,7 +141,6 @@ class UrlAccessor(MatrixAccessor):
                 return True
 
             remote_sha = self._remote_sha()
-            self._checked_remote = True
 
             if local_sha != remote_sha:
                 LOG.info(
@@ -162,7 +163,6 @@ class UrlAccessor(MatrixAccessor):
             """Decide if the index file should be downloaded and cached again."""
             LOG.info("UrlAccessor: forcefully download remote checksum and new index file")
             self._remote_sha()
-            self._checked_remote = True
             return True
 
         def _create(target, args):
-- 
2.43.0


From 6dbf81a613c628d3f9fc6bb19d926822724542f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 20/73] fix: do not truncate regridded integer xarray data

---
 src/earthkit/regrid/data/xarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 08fde0c..342c6f3 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -325,7 +325,8 @@ class XarrayDataHandler(DataHandler):
                     "output_sizes": {dim: out_geo.shape[i] for i, dim in enumerate(out_dims)},
                     "allow_rechunk": True,
                 },
-                output_dtypes=[da.dtype],
+                # integers cannot hold the interpolated values
+                output_dtypes=[da.dtype if da.dtype.kind == "f" else float],
             )
 
         if isinstance(values, xr.Dataset):
-- 
2.43.0


From 869929e0ee236c26f66b4e837d3c544e42ad213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 21/73] fix: do not keep the input gridspec attribute on
 regridded xarray data

---
 src/earthkit/regrid/data/xarray.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 342c6f3..daa6983 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -333,9 +333,15 @@ class XarrayDataHandler(DataHandler):
             ds_out = xr.Dataset()
             for var_name, var in values.data_vars.items():
                 ds_out[var_name] = _regrid(var)
-
+            out_vars = list(ds_out.data_vars.values())
         else:
             ds_out = _regrid(values)
+            out_vars = [ds_out]
+
+        # the attributes can be copied from the input
+        for var in out_vars:
+            if "gridspec" in var.attrs:
+                var.attrs["gridspec"] = method.out_grid
 
         # The output geography might have changed, so we need to create a new geography builder
         # with the new grid spec
-- 
2.43.0


From 4e1aac65d980609a3fedeaf104d493e761f3c217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 22/73] fix: support ORCA W grids

---
 src/earthkit/regrid/gridspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index ae67dec..bd2d515 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -20,7 +20,7 @@ DEGREE_EPS = 1e-8
 
 HEALPIX_PATTERN = re.compile(r"[Hh]\d+")
 RGG_PATTERN = re.compile(r"[OoNn]\d+")
-ORCA_PATTERN = re.compile(r"^e?ORCA\d+_[FTUV]$")
+ORCA_PATTERN = re.compile(r"^e?ORCA\d+_[FTUVW]$")
 
 
 # NOTE: this is a temporary code until the full gridspec
-- 
2.43.0


From 914c3582e087e8e6b3498cb704abbddfcf0f4fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 23/73] fix: import the inventory from its current location in
 the tools

---
 tools/subset/subset_remote_db.py | 2 +-
 tools/utils/matrix.py            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/subset/subset_remote_db.py b/tools/subset/subset_remote_db.py
index 9141482..0e5893f 100644
--- a/tools/subset/subset_remote_db.py
+++ b/tools/subset/subset_remote_db.py
@@ -15,7 +15,7 @@ import sys
 
 import yaml
 
-from earthkit.regrid.db import SYS_DB as DB
+from earthkit.regrid.backends.db import SYS_DB as DB
 
 LOG = logging.getLogger(__name__)
 
diff --git a/tools/utils/matrix.py b/tools/utils/matrix.py
index 9a11bff..00371b5 100644
--- a/tools/utils/matrix.py
+++ b/tools/utils/matrix.py
@@ -22,8 +22,8 @@ MIR_INTERPOLATE_OPTION = "interpolation"
 def download_index_file(target):
     import requests
 
-    from earthkit.regrid.db import _INDEX_GZ_FILENAME
-    from earthkit.regrid.db import _SYSTEM_URL
+    from earthkit.regrid.backends.db import _INDEX_GZ_FILENAME
+    from earthkit.regrid.backends.db import _SYSTEM_URL
 
     path = os.path.join(_SYSTEM_URL, _INDEX_GZ_FILENAME)
     requests.get(path)
-- 
2.43.0


From dc91d81b5929f9c4d674d57c19943d77942f0369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 24/73] fix: do not keep a part of rejected memory cache
 settings

---
 src/earthkit/regrid/utils/memcache.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index a26ffff..8025dfc 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -305,14 +305,20 @@ class MemoryCache:
                 return False
 
             with self.lock:
-                if any(
-                    [
-                        _update("max_mem", self.MAX_SIZE_KEY),
-                        _update("strict", self.STRICT_KEY),
-                        _update_policy(),
-                    ]
-                ):
-                    self._reduce()
+                previous = self.max_mem, self.strict, self.policy
+                try:
+                    if any(
+                        [
+                            _update("max_mem", self.MAX_SIZE_KEY),
+                            _update("strict", self.STRICT_KEY),
+                            _update_policy(),
+                        ]
+                    ):
+                        self._reduce()
+                except Exception:
+                    # invalid settings: do not keep a part of them
+                    self.max_mem, self.strict, self.policy = previous
+                    raise
 
     def _reduce(self, target_size=None):
         # must be called within a lock
-- 
2.43.0


From c9fdb152f245b844265bc0b3929a64082d8bf04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 25/73] fix: do not remove a config option while it is being
 reset

---
 src/earthkit/regrid/utils/config.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index bc49fe5..6dc3270 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -460,7 +460,6 @@ class Config:
             if name not in DEFAULTS:
                 raise KeyError("No config option name '%s'" % (name,))
 
-            self._config.pop(name, None)
             if name in DEFAULTS:
                 if self._has_env(name):
                     msg = (
-- 
2.43.0


From 07b4b4f69ab1732d2f6f09bf3578534a99c3f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 26/73] fix: accept integer distances in the MIR options

---
 src/earthkit/regrid/backends/mir.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/backends/mir.py b/src/earthkit/regrid/backends/mir.py
index be2ee6b..d7386db 100644
--- a/src/earthkit/regrid/backends/mir.py
+++ b/src/earthkit/regrid/backends/mir.py
@@ -43,7 +43,14 @@ class MirBackend(Backend):
     @staticmethod
     def job_options(kwargs):
         # MIR does not know "automatic", it makes its own choice when the option is not set
-        return {k: v for k, v in kwargs.items() if k != "nearest_method" or v != "automatic"}
+        options = {k: v for k, v in kwargs.items() if k != "nearest_method" or v != "automatic"}
+
+        # MIR does not convert integers into floating point options
+        for k in ("distance", "distance_tolerance"):
+            if isinstance(options.get(k), int):
+                options[k] = float(options[k])
+
+        return options
 
     def regrid(
         self,
-- 
2.43.0


From c2a770974d017026ecf370719cd4fe52771e4940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 27/73] fix: accept the documented nearest methods of the MIR
 backend

---
 src/earthkit/regrid/backends/mir.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/earthkit/regrid/backends/mir.py b/src/earthkit/regrid/backends/mir.py
index d7386db..9e98691 100644
--- a/src/earthkit/regrid/backends/mir.py
+++ b/src/earthkit/regrid/backends/mir.py
@@ -45,6 +45,10 @@ class MirBackend(Backend):
         # MIR does not know "automatic", it makes its own choice when the option is not set
         options = {k: v for k, v in kwargs.items() if k != "nearest_method" or v != "automatic"}
 
+        # the methods are spelled with hyphens in MIR
+        if isinstance(options.get("nearest_method"), str):
+            options["nearest_method"] = options["nearest_method"].replace("_", "-")
+
         # MIR does not convert integers into floating point options
         for k in ("distance", "distance_tolerance"):
             if isinstance(options.get(k), int):
-- 
2.43.0


From b5804523316e592c079eb78a5c372427e5e898d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 28/73] fix: regrid xarray objects to a single row or column

The latitudes and longitudes of an output grid with one row or one column
were not recognised, and regrid() failed.
---
 src/earthkit/regrid/data/xarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index daa6983..cb5db85 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -65,7 +65,7 @@ class GridWrapper:
             for i in range(rows):
                 vals = lats[i, :]
                 delta = np.diff(vals)
-                if np.allclose(delta, delta[0]):
+                if delta.size == 0 or np.allclose(delta, delta[0]):
                     r[i] = vals[0]
                 else:
                     return None
@@ -83,7 +83,7 @@ class GridWrapper:
             for i in range(cols):
                 vals = lons[:, i]
                 delta = np.diff(vals)
-                if np.allclose(delta, delta[0]):
+                if delta.size == 0 or np.allclose(delta, delta[0]):
                     r[i] = vals[0]
                 else:
                     return None
-- 
2.43.0


From b7f2e1d894a4f683eb6c57559468f3beacbd0d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 29/73] fix: find the horizontal dimensions of a xarray Dataset
 in its variables

The dimensions of a Dataset are in the order in which its variables and
coordinates were added, so that regrid() refused many Datasets whose
variables are all supported.
---
 src/earthkit/regrid/data/xarray.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index cb5db85..49053bb 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -188,6 +188,14 @@ def xr_geo_dims(ds):
     """
     Determine the geographical dimensions of the dataset/dataarray.
     """
+    # the dimensions of a dataset are in no particular order
+    variables = list(getattr(ds, "data_vars", {}).values())
+    if variables:
+        geo_dims = [xr_geo_dims(v) for v in variables]
+        if all(x == geo_dims[0] for x in geo_dims):
+            return geo_dims[0]
+        raise ValueError("Dataset geography is not supported.")
+
     dims = list(ds.sizes.keys())
     if len(ds.dims) >= 1:
         if dims[-1] == "values":
-- 
2.43.0


From c0b2d02d35f64ea4dfe806452b9e76dbc3f0d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 30/73] fix: keep the target grid of a lazy xarray result

The gridspec given to regrid() was only read when the dask-backed result
was computed, and later changes to it changed the result.
---
 src/earthkit/regrid/data/xarray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 49053bb..d3f730e 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -7,6 +7,7 @@
 # nor does it submit to any jurisdiction.
 #
 
+import copy
 import functools
 import logging
 
@@ -275,6 +276,9 @@ class XarrayDataHandler(DataHandler):
 
         kwargs = kwargs.copy()
 
+        # a lazy result still needs the grid after the call
+        grid = copy.deepcopy(grid)
+
         in_grid = self.get_in_grid(values, kwargs)
         out_geo = self.get_out_geo(grid)
 
-- 
2.43.0


From c93bc9e4feaf5c7ac8dbfb35e5de20006dbbf9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 31/73] fix: use the disk cache in a forked process

The thread of the cache manager does not survive a fork, so a child process
waited forever for its first cached file when its parent had used the cache.
---
 src/earthkit/regrid/utils/caching.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 2b0f1db..0cb6b95 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -811,6 +811,17 @@ class Cache:
                     s = self._manager.enqueue(func, *args, **kwargs)
                     return s.result()
 
+    def _after_fork_in_child(self):
+        # Only the thread that called fork() exists in the child: neither the manager
+        # nor the threads that may have held the locks.
+        self._policy_lock = threading.Lock()
+        self._manager_lock = threading.Lock()
+        if self._manager is not None:
+            self._manager = CacheManager()
+            self._manager.start()
+            if self._policy is not None and self._policy.managed():
+                self._manager.enqueue(self._manager._config_changed, deepcopy(self._policy))
+
     def _call_manager_config_changed(self):
         s = self._manager.enqueue(self._manager._config_changed, deepcopy(self._policy))
         return s.result()
@@ -1074,3 +1085,6 @@ def cache_file(
 
 # housekeeping()
 CONFIG.on_change(CACHE._config_changed)
+
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(after_in_child=CACHE._after_fork_in_child)
-- 
2.43.0


From cc78a266b22ab2a3d916480f0e407b4fb211f8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 32/73] fix: one temporary directory for concurrent requests
 when the cache is off

Threads that made the first requests at the same time created a directory
each, and all but one of them were deleted while still in use.
---
 src/earthkit/regrid/utils/caching.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 0cb6b95..9c0ecb0 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -665,15 +665,17 @@ class NoCachePolicy(CachePolicy):
     OUTDATED_CHECK_KEYS = ["cache-policy", "temporary-directory-root"]
     _name = "off"
     _dir = None
+    _dir_lock = threading.Lock()
 
     def managed(self):
         return False
 
     def directory(self):
         if self._dir is None:
-            if self._dir is None:
-                root_dir = self._expand_path(self._config.get("temporary-directory-root"))
-                self._dir = temp_directory(dir=root_dir)
+            with self._dir_lock:
+                if self._dir is None:
+                    root_dir = self._expand_path(self._config.get("temporary-directory-root"))
+                    self._dir = temp_directory(dir=root_dir)
         return self._dir.path
 
     def use_message_position_index_cache(self):
-- 
2.43.0


From 3b319de4d6cf04d607feeba9d1e8f2f5b5f0d108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:00 +0000
Subject: [PATCH 33/73] fix: evict entries that are newer than an interrupted
 creation

A process that was killed while it created a cached file left an entry without
a size, which protected all of the newer entries from being evicted.
---
 src/earthkit/regrid/utils/caching.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 9c0ecb0..62f8b7f 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -250,6 +250,22 @@ class CacheManager(threading.Thread):
             )
             return db.execute("SELECT changes()").fetchone()[0]
 
+    def _is_abandoned(self, path):
+        """Tell if the file is missing and not being created, e.g. because the process
+        that was creating it was killed."""
+        from filelock import FileLock
+        from filelock import Timeout
+
+        lock = path + ".lock"
+        if not os.path.exists(lock):
+            return not os.path.exists(path)
+
+        try:
+            with FileLock(lock, timeout=0):
+                return not os.path.exists(path)
+        except Timeout:
+            return False
+
     def _update_cache(self, clean=False):
         """Update cache size and size of each file in the database ."""
         with self.connection as db:
@@ -269,7 +285,7 @@ class CacheManager(threading.Thread):
                         size = os.path.getsize(path)
                     update.append((size, kind, path))
                 except Exception:
-                    if clean:
+                    if clean or self._is_abandoned(path):
                         db.execute("DELETE from cache WHERE path=?", (path,))
                         commit = True
 
-- 
2.43.0


From 31496b5fe5b488e60a48ee1e6e531ad7cd285b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:14 +0000
Subject: [PATCH 34/73] fix: do not evict the journal of the cache database

The journal of a transaction of another process could be registered as an
orphan file, when it was deleted while the directory was read, and a later
journal was then deleted by an eviction, which corrupts the database.
---
 src/earthkit/regrid/utils/caching.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 62f8b7f..59d4b57 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -299,7 +299,8 @@ class CacheManager(threading.Thread):
         top = self._policy.directory()
         with self.connection as db:
             for name in os.listdir(top):
-                if name == CACHE_DB:
+                # The database and its temporary files (e.g. the journal of a transaction)
+                if name.startswith(CACHE_DB):
                     continue
 
                 full = os.path.join(top, name)
@@ -323,7 +324,8 @@ class CacheManager(threading.Thread):
                     if time.time() - s.st_mtime < 120:  # Two minutes
                         continue
                 except OSError:
-                    pass
+                    # Deleted in the meantime
+                    continue
 
                 if parent is None:
                     LOG.warning(f"earthkit-regrid cache: orphan found: {full}")
-- 
2.43.0


From ae4381873471d72711c5ed4ecb15e689bf75f5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 35/73] fix: do not keep the cache database locked while
 evicting files

Processes that evicted entries at the same time failed with 'database is
locked' after they had deleted a file, and left its entry behind.
---
 src/earthkit/regrid/utils/caching.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 59d4b57..9231470 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -271,7 +271,7 @@ class CacheManager(threading.Thread):
         with self.connection as db:
             update = []
             commit = False
-            for n in db.execute("SELECT path FROM cache WHERE size IS NULL"):
+            for n in db.execute("SELECT path FROM cache WHERE size IS NULL").fetchall():
                 try:
                     path = n[0]
                     if os.path.isdir(path):
@@ -398,7 +398,7 @@ class CacheManager(threading.Thread):
 
         # First, delete child files, e.g. unzipped data
         with self.connection as db:
-            for child in db.execute("SELECT * FROM cache WHERE parent = ?", (path,)):
+            for child in db.execute("SELECT * FROM cache WHERE parent = ?", (path,)).fetchall():
                 total += self._delete_entry(child)
 
         if not os.path.exists(path):
@@ -434,7 +434,7 @@ class CacheManager(threading.Thread):
                 "SELECT * FROM cache WHERE size IS NOT NULL AND owner='orphans' AND creation_date < ?",
                 "SELECT * FROM cache WHERE size IS NOT NULL AND creation_date < ? ORDER BY last_access ASC",
             ):
-                for entry in db.execute(stmt, (latest,)):
+                for entry in db.execute(stmt, (latest,)).fetchall():
                     total += self._delete_entry(entry)
                     if total >= bytes and not purge:
                         LOG.warning(
-- 
2.43.0


From 8be8bf213e4a490ce7b3c2f818707935ab548ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 36/73] fix: download a weights file again when the cached copy
 cannot be loaded

---
 src/earthkit/regrid/backends/db.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index cb3a4bc..3440048 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -90,6 +90,10 @@ class MatrixAccessor(metaclass=ABCMeta):
     def checked_remote(self):
         return False
 
+    def discard(self, path):
+        """Called when the content of the matrix file at ``path`` is unusable."""
+        pass
+
     @abstractmethod
     def reset(self):
         pass
@@ -270,6 +274,12 @@ class UrlAccessor(MatrixAccessor):
 
         return path
 
+    def discard(self, path):
+        from earthkit.regrid.utils.caching import CACHE
+
+        LOG.warning(f"UrlAccessor: remove unusable matrix file={path} from cache")
+        CACHE._decache_file(path)
+
 
 class LocalAccessor(MatrixAccessor):
     def __init__(self, path):
@@ -503,8 +513,14 @@ class MatrixDb:
 
     def load_matrix(self, entry):
         path = self._matrix_fs_path(entry)
-        z = load_npz(path)
-        return z
+        try:
+            return load_npz(path)
+        except (OSError, MemoryError):
+            raise
+        except Exception:
+            # otherwise a damaged download would be used forever
+            self._accessor.discard(path)
+            raise
 
     def _matrix_index_filename(self, entry):
         return self.index.matrix_filename(entry)
-- 
2.43.0


From fd1466eec3525a380a8276eac468aefe68f8315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 37/73] fix: do not cache an index that cannot be loaded

---
 src/earthkit/regrid/backends/db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 3440048..b08d2bf 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -182,6 +182,9 @@ class UrlAccessor(MatrixAccessor):
                 with open(target, "wb") as f_out:
                     f_out.write(data)
 
+            # an unusable index must not be cached
+            MatrixIndex().load(target)
+
             with open(target, "r") as f:
                 data = f.read()
                 sha = make_sha(data)
-- 
2.43.0


From 632ed4a85b6162a377315dcf0e218104e1c04471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 38/73] fix: only continue an interrupted download when the
 remote file is unchanged

---
 src/earthkit/regrid/utils/download.py | 37 ++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/download.py b/src/earthkit/regrid/utils/download.py
index 9049f47..8177ca2 100644
--- a/src/earthkit/regrid/utils/download.py
+++ b/src/earthkit/regrid/utils/download.py
@@ -9,6 +9,7 @@
 
 
 import logging
+import os
 
 from multiurl import Downloader
 
@@ -19,6 +20,21 @@ from earthkit.regrid.utils.config import CONFIG
 LOG = logging.getLogger(__name__)
 
 
+def _read(path):
+    try:
+        with open(path) as f:
+            return f.read()
+    except OSError:
+        return None
+
+
+def _remove(path):
+    try:
+        os.unlink(path)
+    except OSError:
+        pass
+
+
 def download_and_cache(
     url,
     *,
@@ -92,7 +108,26 @@ def download_and_cache(
         force = out_of_date
 
     def download(target, _):
-        downloader.download(target)
+        cache_data = downloader.cache_data()
+        etag = cache_data.get("etag") if cache_data else None
+
+        # the remains of an interrupted transfer are only continued when
+        # they are from the same version of the remote file
+        partial = target + ".download"
+        partial_etag = partial + ".etag"
+        if os.path.exists(partial) and (etag is None or _read(partial_etag) != etag):
+            os.unlink(partial)
+        if etag is not None:
+            with open(partial_etag, "w") as f:
+                f.write(etag)
+
+        try:
+            downloader.download(target)
+        except AssertionError:
+            # it is not the expected content
+            _remove(partial)
+            raise
+        _remove(partial_etag)
         return downloader.cache_data()
 
     path = cache_file(
-- 
2.43.0


From af806c9d24501e443c6e932d9ab7cc6d05b8cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 39/73] fix: keep a cached file usable by others while it is
 being refreshed

---
 src/earthkit/regrid/utils/caching.py | 35 +++++++++++++++++++---------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 9231470..4d1a51f 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -445,7 +445,7 @@ class CacheManager(threading.Thread):
 
         LOG.warning("earthkit-regrid cache: could not free %s", humanize.bytes(bytes))
 
-    def _register_cache_file(self, path, owner, args, parent=None):
+    def _register_cache_file(self, path, owner, args, parent=None, renew=False):
         """Register a file in the cache
 
         Parameters
@@ -456,6 +456,8 @@ class CacheManager(threading.Thread):
             Owner of the cache file (generally a source or a dataset)
         args : dict
             Dictionary to save with the file in the database, as json string.
+        renew : bool
+            Start again with a new entry when the path is already registered.
 
         Returns
         -------
@@ -469,6 +471,11 @@ class CacheManager(threading.Thread):
 
             args = json.dumps(args, default=default_serialiser)
 
+            if renew:
+                for child in db.execute("SELECT * FROM cache WHERE parent = ?", (path,)).fetchall():
+                    self._delete_entry(child)
+                db.execute("DELETE FROM cache WHERE path=?", (path,))
+
             db.execute(
                 """
                 UPDATE cache
@@ -1042,24 +1049,29 @@ def cache_file(
                     owner_data = json.loads(owner_data)
                 force = force(args, path, owner_data)
 
-            if force:
-                LOG.info(f"decache file by force: {path=}")
-                CACHE._decache_file(path)
-                record = CACHE._register_cache_file(path, owner, args)
+        else:
+            force = False
 
-        if not os.path.exists(path):
+        if force or not os.path.exists(path):
             from filelock import FileLock
 
             lock = path + ".lock"
             with FileLock(lock):
-                if not os.path.exists(path):  # Check again, another thread/process may have created the file
+                # Check again, another thread/process may have created the file
+                if force or not os.path.exists(path):
                     try:
                         owner_data = create(path + ".tmp", args)
+                        if os.path.isdir(path) or (os.path.exists(path) and os.path.isdir(path + ".tmp")):
+                            CACHE._decache_file(path)
+                        # A file is replaced at once, it may be in use by another thread/process
                         os.rename(path + ".tmp", path)
                     except BaseException:
                         # entries without a file would prevent newer ones from being evicted
                         CACHE._decache_file(path)
                         raise
+                    if force:
+                        LOG.info(f"cache file replaced by force: {path=}")
+                        CACHE._register_cache_file(path, owner, args, renew=True)
                     LOG.info(f"cache file created: {path=}")
                     if not CACHE._update_entry(path, owner_data):
                         # the entry was removed while the file was being created
@@ -1067,10 +1079,11 @@ def cache_file(
                         CACHE._update_entry(path, owner_data)
                     CACHE.check_size()
 
-            try:
-                os.unlink(lock)
-            except OSError:
-                pass
+                # still locked, so two of the waiting threads/processes do not enter at the same time
+                try:
+                    os.unlink(lock)
+                except OSError:
+                    pass
 
     else:
         # path can be a file or a directory. We have to make the name unique.
-- 
2.43.0


From c268cb024b76bab661faff65963d34273e44bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 40/73] fix: use the updated index when another thread of the
 process is checking for it

---
 src/earthkit/regrid/backends/db.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index b08d2bf..075cfa3 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -10,6 +10,7 @@
 import json
 import logging
 import os
+import threading
 from abc import ABCMeta
 from abc import abstractmethod
 
@@ -444,6 +445,7 @@ class MatrixDb:
     def __init__(self, accessor):
         self._index = None
         self._accessor = accessor
+        self._reload_lock = threading.Lock()
 
     @property
     def index(self):
@@ -505,12 +507,15 @@ class MatrixDb:
     def find_entry(self, gridspec_in, gridspec_out, method):
         method = self._method_alias(method)
         entry = self.index.find(gridspec_in, gridspec_out, method)
-        if entry is None and not self._accessor.is_local() and not self._accessor.checked_remote():
-            LOG.info(f"Matrix not found in DB for {gridspec_in=} {gridspec_out=} {method=}")
-            LOG.info("Try to fetch remote index file to check for updates")
-            self._accessor.reload()
-            self._load_index()
-            entry = self.index.find(gridspec_in, gridspec_out, method)
+        if entry is None and not self._accessor.is_local():
+            # when another thread is doing the check its outcome has to be used
+            with self._reload_lock:
+                if not self._accessor.checked_remote():
+                    LOG.info(f"Matrix not found in DB for {gridspec_in=} {gridspec_out=} {method=}")
+                    LOG.info("Try to fetch remote index file to check for updates")
+                    self._accessor.reload()
+                    self._load_index()
+                entry = self.index.find(gridspec_in, gridspec_out, method)
 
         return entry
 
-- 
2.43.0


From 1df4cae95d75e657077baa158ab1d733f04e0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 41/73] fix: discard a cached weights file whatever the error
 its damage leads to

---
 src/earthkit/regrid/backends/db.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 075cfa3..a86e9d6 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -521,14 +521,15 @@ class MatrixDb:
 
     def load_matrix(self, entry):
         path = self._matrix_fs_path(entry)
-        try:
-            return load_npz(path)
-        except (OSError, MemoryError):
-            raise
-        except Exception:
-            # otherwise a damaged download would be used forever
-            self._accessor.discard(path)
-            raise
+        with open(path, "rb") as f:
+            try:
+                return load_npz(f)
+            except MemoryError:
+                raise
+            except Exception:
+                # otherwise a damaged download would be used forever
+                self._accessor.discard(path)
+                raise
 
     def _matrix_index_filename(self, entry):
         return self.index.matrix_filename(entry)
-- 
2.43.0


From fa615e12312d3c3bc17e63b725bcf6045ce35e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 42/73] fix: forget the version of an interrupted download when
 it is unknown

---
 src/earthkit/regrid/utils/download.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/download.py b/src/earthkit/regrid/utils/download.py
index 8177ca2..f364140 100644
--- a/src/earthkit/regrid/utils/download.py
+++ b/src/earthkit/regrid/utils/download.py
@@ -117,7 +117,9 @@ def download_and_cache(
         partial_etag = partial + ".etag"
         if os.path.exists(partial) and (etag is None or _read(partial_etag) != etag):
             os.unlink(partial)
-        if etag is not None:
+        if etag is None:
+            _remove(partial_etag)
+        else:
             with open(partial_etag, "w") as f:
                 f.write(etag)
 
-- 
2.43.0


From 8f28294e3858444bb67a318d85ba777703b84a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 43/73] fix: skip index entries of an unknown healpix order or
 interpolation method

---
 src/earthkit/regrid/backends/db.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index a86e9d6..89cf855 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -328,6 +328,10 @@ class MatrixIndex(dict):
                 try:
                     in_gs = GridSpec.from_dict(entry["input"])
                     out_gs = GridSpec.from_dict(entry["output"])
+                    # an entry that cannot be compared would break the lookup of the others
+                    self.interpolation_method_name(entry)
+                    if not (in_gs == in_gs and out_gs == out_gs):
+                        continue
                     raw = entry
                     entry = dict(**entry)
                     entry["input"] = in_gs
-- 
2.43.0


From d3ed2166af68bb71a8303e04898b4235e7804628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 44/73] fix: refuse weights from MIR with inconsistent sizes or
 indices

---
 src/earthkit/regrid/utils/mir.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index b65abae..c93078a 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -36,7 +36,7 @@ def mir_cached_matrix_to_array(path):
         s = Stream(f)
         rows = s.read_unsigned_long()  # rows
         cols = s.read_unsigned_long()  # cols
-        s.read_unsigned_long()  # non-zeros, ignored
+        nnz = s.read_unsigned_long()  # non-zeros
 
         little_endian = s.read_int() != 0  # little_endian
         index_item_size = s.read_unsigned_long()  # sizeof(index)
@@ -62,7 +62,12 @@ def mir_cached_matrix_to_array(path):
             dtype=dtype_float(little_endian, scalar_item_size),
         )
 
-        return csr_array((data, inner, outer), shape=(rows, cols))
+        z = csr_array((data, inner, outer), shape=(rows, cols))
+        if z.nnz != nnz or data.size != nnz:
+            raise ValueError(f"Invalid matrix: expected {nnz} non-zeros, got {data.size}")
+        # indices out of range would be used to access the memory
+        z.check_format(full_check=True)
+        return z
 
 
 def mir_cached_matrix_to_file(path, target):
-- 
2.43.0


From 3e040c98e4e9b43a2a46e4a9854b55fadc0538fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 45/73] fix: write the grid definition file of coordinates
 atomically

---
 src/earthkit/regrid/utils/mir.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index c93078a..aa47982 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -9,6 +9,7 @@
 # nor does it submit to any jurisdiction.
 #
 
+import uuid
 from pathlib import Path
 from typing import Dict
 from typing import List
@@ -113,7 +114,13 @@ def _griddef_from_latlon(lat, lon, dir=None):
         name.parent.mkdir(parents=True, exist_ok=True)
 
     if not name.exists():
-        mir_write_latlon_to_griddef(name, lat, lon)
+        # never leave an incomplete file under the final name
+        tmp = name.with_name(f"{hash}.{uuid.uuid4().hex}.tmp")
+        try:
+            mir_write_latlon_to_griddef(tmp, lat, lon)
+            tmp.replace(name)
+        finally:
+            tmp.unlink(missing_ok=True)
 
     return str(name)
 
-- 
2.43.0


From a0665224e145d487f4648cf4d5cb1fcaee862308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 46/73] fix: return the weights when no output is given

---
 src/earthkit/regrid/utils/mir.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index aa47982..861256d 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -9,6 +9,7 @@
 # nor does it submit to any jurisdiction.
 #
 
+import tempfile
 import uuid
 from pathlib import Path
 from typing import Dict
@@ -135,10 +136,16 @@ def mir_make_matrix(
     output=None,
     **kwargs,
 ):
+    if output is None:
+        with tempfile.TemporaryDirectory() as tmp:
+            mat = Path(tmp) / "matrix.mat"
+            mir_make_matrix(in_grid, in_lat, in_lon, out_grid, out_lat, out_lon, output=mat, **kwargs)
+            return mir_cached_matrix_to_array(mat)
+
     import mir
 
-    ext = Path(output).suffix if output is not None else None
-    if output is not None and ext not in (".mat", ".npz"):
+    ext = Path(output).suffix
+    if ext not in (".mat", ".npz"):
         raise ValueError("mir_make_matrix: output must have extension .mat or .npz")
 
     job = mir.Job()
@@ -172,15 +179,13 @@ def mir_make_matrix(
     except Exception as e:
         raise RuntimeError(f"mir_make_matrix: error: {e}.") from e
 
-    if ext and not mat.exists():
+    if not mat.exists():
         raise FileNotFoundError(f"mir_make_matrix: matrix file '{mat}' not found.")
 
     if ext == ".npz":
         mir_cached_matrix_to_file(str(mat), output)
         mat.unlink()
         assert Path(output).exists()
-    elif not ext:
-        return mir_cached_matrix_to_array(mat)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 96fb06bbe61e4f18f76a9b8163e404f2bc5017ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 47/73] fix: do not damage the inventory when adding weights
 fails

---
 src/earthkit/regrid/utils/builder.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/builder.py b/src/earthkit/regrid/utils/builder.py
index 241ce71..9f2ea04 100644
--- a/src/earthkit/regrid/utils/builder.py
+++ b/src/earthkit/regrid/utils/builder.py
@@ -10,6 +10,7 @@
 import hashlib
 import json
 import os
+from contextlib import contextmanager
 
 from scipy.sparse import load_npz
 
@@ -73,6 +74,19 @@ def get_method_name(entry):
     return method
 
 
+@contextmanager
+def atomic(path):
+    """Provide a temporary path, which replaces ``path`` if all goes well."""
+    root, ext = os.path.splitext(path)
+    tmp = f"{root}.{os.getpid()}.tmp{ext}"
+    try:
+        yield tmp
+        os.replace(tmp, path)
+    finally:
+        if os.path.exists(tmp):
+            os.unlink(tmp)
+
+
 def make_matrix(input_path, output_path, index_file=None, global_input=None, global_output=None):
 
     with open(input_path) as f:
@@ -107,7 +121,8 @@ def make_matrix(input_path, output_path, index_file=None, global_input=None, glo
 
     print(f"entry={entry}")
     npz_file = os.path.join(matrix_output_path, f"{name}.npz")
-    mir_cached_matrix_to_file(cache_file, npz_file)
+    with atomic(npz_file) as tmp:
+        mir_cached_matrix_to_file(cache_file, tmp)
 
     if index_file is None:
         index_file = os.path.join(output_path, "index.json")
@@ -145,8 +160,9 @@ def make_matrix(input_path, output_path, index_file=None, global_input=None, glo
         memory=mem_size,
     )
 
-    with open(index_file, "w") as f:
-        json.dump(index, f, indent=4)
+    with atomic(index_file) as tmp:
+        with open(tmp, "w") as f:
+            json.dump(index, f, indent=4)
 
     print("Written", npz_file)
     print("Written", index_file)
-- 
2.43.0


From f331c35832081a4bceda491c833e6d3682d37317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 48/73] fix: let MIR write the weights where it can link them

---
 src/earthkit/regrid/utils/mir.py | 50 +++++++++++++++-----------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 861256d..06f29b3 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -9,6 +9,7 @@
 # nor does it submit to any jurisdiction.
 #
 
+import shutil
 import tempfile
 import uuid
 from pathlib import Path
@@ -136,16 +137,10 @@ def mir_make_matrix(
     output=None,
     **kwargs,
 ):
-    if output is None:
-        with tempfile.TemporaryDirectory() as tmp:
-            mat = Path(tmp) / "matrix.mat"
-            mir_make_matrix(in_grid, in_lat, in_lon, out_grid, out_lat, out_lon, output=mat, **kwargs)
-            return mir_cached_matrix_to_array(mat)
-
     import mir
 
-    ext = Path(output).suffix
-    if ext not in (".mat", ".npz"):
+    ext = Path(output).suffix if output is not None else None
+    if output is not None and ext not in (".mat", ".npz"):
         raise ValueError("mir_make_matrix: output must have extension .mat or .npz")
 
     job = mir.Job()
@@ -164,28 +159,31 @@ def mir_make_matrix(
     else:
         raise ValueError("mir_make_matrix: output grid or lats/lons must be provided.")
 
-    mat = Path(output)
-    if ext == ".mat":
-        job.set("interpolation-matrix", str(mat))
-    elif ext == ".npz":
-        mat = mat.with_name(mat.name + ".mat")  # later unlinked
-        job.set("interpolation-matrix", str(mat))
-
     for key, val in kwargs.items():
         job.set(key, val)
 
-    try:
-        job.execute(input, mir.EmptyOutput())
-    except Exception as e:
-        raise RuntimeError(f"mir_make_matrix: error: {e}.") from e
-
-    if not mat.exists():
-        raise FileNotFoundError(f"mir_make_matrix: matrix file '{mat}' not found.")
+    # MIR makes a hard link to a file of its cache, which has to be on the same file system
+    cache = Path(mir.cache())
+    cache.mkdir(parents=True, exist_ok=True)
+    with tempfile.TemporaryDirectory(dir=cache) as tmp:
+        mat = Path(tmp) / "matrix.mat"
+        job.set("interpolation-matrix", str(mat))
 
-    if ext == ".npz":
-        mir_cached_matrix_to_file(str(mat), output)
-        mat.unlink()
-        assert Path(output).exists()
+        try:
+            job.execute(input, mir.EmptyOutput())
+        except Exception as e:
+            raise RuntimeError(f"mir_make_matrix: error: {e}.") from e
+
+        if not mat.exists():
+            raise FileNotFoundError(f"mir_make_matrix: matrix file '{mat}' not found.")
+
+        if ext == ".mat":
+            shutil.copyfile(mat, output)
+        elif ext == ".npz":
+            mir_cached_matrix_to_file(mat, output)
+            assert Path(output).exists()
+        else:
+            return mir_cached_matrix_to_array(mat)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 8147dd27c34ffbe497ce3bb860977a57beda0697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 49/73] fix: give a usable matrix

The matrix was made of read-only buffers, with which many operations on a
sparse matrix fail.
---
 src/earthkit/regrid/utils/mir.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 06f29b3..7d3f8b8 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -65,7 +65,8 @@ def mir_cached_matrix_to_array(path):
             dtype=dtype_float(little_endian, scalar_item_size),
         )
 
-        z = csr_array((data, inner, outer), shape=(rows, cols))
+        # the buffers are read-only, with which most operations on a matrix fail
+        z = csr_array((data, inner, outer), shape=(rows, cols), copy=True)
         if z.nnz != nnz or data.size != nnz:
             raise ValueError(f"Invalid matrix: expected {nnz} non-zeros, got {data.size}")
         # indices out of range would be used to access the memory
-- 
2.43.0


From bf3259f1b9b6115172a8a222de0fbdd7b5201e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 50/73] fix: do not mix up inventories with the same relative
 path

The path of a local inventory was resolved each time a file was read, so after
the current directory changed the index of one inventory was used with the
weights of another.
---
 src/earthkit/regrid/backends/__init__.py    |  8 ++++++++
 src/earthkit/regrid/backends/precomputed.py | 16 +++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/backends/__init__.py b/src/earthkit/regrid/backends/__init__.py
index 8675141..9229978 100644
--- a/src/earthkit/regrid/backends/__init__.py
+++ b/src/earthkit/regrid/backends/__init__.py
@@ -28,6 +28,11 @@ class Backend(metaclass=ABCMeta):
     def __init__(self, *args, **kwargs):
         pass
 
+    @classmethod
+    def resolve_kwargs(cls, kwargs):
+        """Return the keyword arguments of the constructor in a form that always means the same."""
+        return kwargs
+
     @abstractmethod
     def regrid(self, values, in_grid, out_grid, method, **kwargs):
         pass
@@ -66,6 +71,9 @@ class BackendMaker:
     def __call__(self, name, *args, **kwargs):
         loader = BackendLoader()
 
+        if name in self.BACKENDS:
+            kwargs = self.BACKENDS[name].resolve_kwargs(kwargs)
+
         key = self._make_key(name, *args, **kwargs)
         if key in self.BACKEND_OBJECTS:
             return self.BACKEND_OBJECTS[key]
diff --git a/src/earthkit/regrid/backends/precomputed.py b/src/earthkit/regrid/backends/precomputed.py
index f48fb51..3f26be9 100644
--- a/src/earthkit/regrid/backends/precomputed.py
+++ b/src/earthkit/regrid/backends/precomputed.py
@@ -8,6 +8,8 @@
 #
 
 
+import os
+
 from . import Backend
 
 
@@ -19,6 +21,18 @@ class MatrixBackend(Backend):
         self.path_or_url = inventory
         self.db = self.get_db(inventory)
 
+    @classmethod
+    def resolve_kwargs(cls, kwargs):
+        path = kwargs.get("inventory")
+        # the current directory may change
+        if path and isinstance(path, str) and path != cls.system_inventory_id and not cls._is_url(path):
+            kwargs = {**kwargs, "inventory": os.path.abspath(path)}
+        return kwargs
+
+    @staticmethod
+    def _is_url(path):
+        return path.startswith("http://") or path.startswith("https://")
+
     def regrid(self, values, in_grid, out_grid, interpolation):
         z, shape = self.db.find(in_grid, out_grid, interpolation)
 
@@ -52,7 +66,7 @@ class MatrixBackend(Backend):
             from .db import SYS_DB
 
             return SYS_DB
-        elif path_or_url.startswith("http://") or path_or_url.startswith("https://"):
+        elif self._is_url(path_or_url):
             from .db import MatrixDb
 
             return MatrixDb.from_url(path_or_url)
-- 
2.43.0


From 6d9713dc5e672fd9fcd20216afa7e0fa81b44de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 51/73] fix: keep a cache with a relative path in its directory

The path was resolved each time it was used, so after the current directory
changed files were created outside of the cache.
---
 src/earthkit/regrid/utils/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 4d1a51f..dbe0626 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -657,7 +657,8 @@ class CachePolicy(metaclass=ABCMeta):
     @staticmethod
     def _expand_path(path):
         if path is not None:
-            path = os.path.expanduser(path)
+            # the current directory may change
+            path = os.path.abspath(os.path.expanduser(path))
         return path
 
 
-- 
2.43.0


From 26b3ceda141ed4e2d1f9d2ed55ff16035615adbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:33 +0000
Subject: [PATCH 52/73] fix: bring the cache within its limit when orphans are
 found

The number of bytes to free was computed before the orphans were added to
the size of the cache.
---
 src/earthkit/regrid/utils/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index dbe0626..9fdbd5b 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -523,7 +523,8 @@ class CacheManager(threading.Thread):
                 size = self._cache_size()
                 if size > maximum:
                     self._housekeeping()
-                    self._decache(size - maximum)
+                    # the size includes the orphans that were found
+                    self._decache(self._cache_size() - maximum)
 
             # Check relative limit
             usage = self._policy.maximum_cache_disk_usage()
-- 
2.43.0


From 9aed85a0fd6040c2c83ac208c55dbb0130dcd7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:57 +0000
Subject: [PATCH 53/73] fix: leave the work files of creations in progress
 alone

After two minutes they were taken for orphans: evicting them made the creation
fail or left an incomplete file, and the entries made for the remains of killed
creations stayed, and counted, after these files were used again.
---
 src/earthkit/regrid/utils/caching.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 9fdbd5b..79daf4f 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -14,6 +14,7 @@ import json
 import logging
 import os
 import platform
+import re
 import shutil
 import sqlite3
 import threading
@@ -33,6 +34,8 @@ CACHE_DB = f"cache-{VERSION}.db"
 
 LOG = logging.getLogger(__name__)
 
+# the files used during a creation
+WORK_FILE = re.compile(r"(.+)\.(lock|tmp|tmp\..+)")
 
 CONNECTION = None
 CACHE = None
@@ -295,6 +298,19 @@ class CacheManager(threading.Thread):
             if update or commit:
                 db.commit()
 
+    def _delete_work_file(self, path, lock):
+        """Delete what a killed creation left behind, unless a creation is in progress."""
+        from filelock import FileLock
+        from filelock import Timeout
+
+        try:
+            with FileLock(lock, timeout=0):
+                for p in {path, lock}:
+                    if os.path.lexists(p):
+                        self._delete_file(p)
+        except Timeout:
+            LOG.debug("In use: %s", path)
+
     def _housekeeping(self, clean=False):
         top = self._policy.directory()
         with self.connection as db:
@@ -327,6 +343,12 @@ class CacheManager(threading.Thread):
                     # Deleted in the meantime
                     continue
 
+                # Never made an entry: the next creation of the same file uses it again
+                work = WORK_FILE.fullmatch(name)
+                if work:
+                    self._delete_work_file(full, os.path.join(top, work[1]) + ".lock")
+                    continue
+
                 if parent is None:
                     LOG.warning(f"earthkit-regrid cache: orphan found: {full}")
                 else:
-- 
2.43.0


From 73449ef73b09c538252715bad704339b4396dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:31 +0000
Subject: [PATCH 54/73] fix: never evict the latest entry because of orphans

They were registered with the current date, which made one of them the latest
entry, so a file could be evicted before its creator got it.
---
 src/earthkit/regrid/utils/caching.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 79daf4f..91c3a9a 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -359,6 +359,8 @@ class CacheManager(threading.Thread):
                     "orphans",
                     None,
                     parent,
+                    # it must not become the latest entry, which is never evicted
+                    now=datetime.datetime.fromtimestamp(s.st_mtime),
                 )
         self._update_cache(clean=clean)
 
@@ -467,7 +469,7 @@ class CacheManager(threading.Thread):
 
         LOG.warning("earthkit-regrid cache: could not free %s", humanize.bytes(bytes))
 
-    def _register_cache_file(self, path, owner, args, parent=None, renew=False):
+    def _register_cache_file(self, path, owner, args, parent=None, renew=False, now=None):
         """Register a file in the cache
 
         Parameters
@@ -480,6 +482,8 @@ class CacheManager(threading.Thread):
             Dictionary to save with the file in the database, as json string.
         renew : bool
             Start again with a new entry when the path is already registered.
+        now : datetime.datetime
+            Date of the access, by default the current one.
 
         Returns
         -------
@@ -489,7 +493,7 @@ class CacheManager(threading.Thread):
         self._ensure_in_cache(path)
 
         with self.connection as db:
-            now = datetime.datetime.now()
+            now = datetime.datetime.now() if now is None else now
 
             args = json.dumps(args, default=default_serialiser)
 
-- 
2.43.0


From 0c96a9a047fb219cb91b6a487d8cf2a83f293591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 55/73] fix: take the entry created last as the latest one

---
 src/earthkit/regrid/utils/caching.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 91c3a9a..e274511 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -242,9 +242,15 @@ class CacheManager(threading.Thread):
             size = os.path.getsize(path)
 
         with self.connection as db:
+            # the latest entry is the one whose creation ended last
             db.execute(
-                "UPDATE cache SET size=?, type=?, owner_data=? WHERE path=?",
+                """
+                UPDATE cache
+                SET creation_date = CASE WHEN size IS NULL THEN ? ELSE creation_date END,
+                    size = ?, type = ?, owner_data = ?
+                WHERE path=?""",
                 (
+                    datetime.datetime.now(),
                     size,
                     kind,
                     json.dumps(owner_data, default=default_serialiser),
-- 
2.43.0


From 394660f8919f2bf612dae6fbb2b7a79ca82477c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 56/73] fix: do not use what a failed creation left behind

---
 src/earthkit/regrid/utils/caching.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index e274511..b15cebc 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -1094,6 +1094,9 @@ def cache_file(
                 # Check again, another thread/process may have created the file
                 if force or not os.path.exists(path):
                     try:
+                        # A creation that was killed or failed may have left its part of the file
+                        if os.path.lexists(path + ".tmp"):
+                            CACHE._decache_file(path + ".tmp")
                         owner_data = create(path + ".tmp", args)
                         if os.path.isdir(path) or (os.path.exists(path) and os.path.isdir(path + ".tmp")):
                             CACHE._decache_file(path)
-- 
2.43.0


From c04c5d11cc42c57855b9eba5528ad762e0d6fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:10 +0000
Subject: [PATCH 57/73] fix: count the files whose creation was killed at the
 end

---
 src/earthkit/regrid/utils/caching.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index b15cebc..f7aa9a8 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -215,6 +215,7 @@ class CacheManager(threading.Thread):
             self._delete_entry(entry)
 
     def _cache_entries(self):
+        self._update_cache(remove=False)
         result = []
         with self.connection as db:
             for n in db.execute("SELECT * FROM cache").fetchall():
@@ -275,7 +276,7 @@ class CacheManager(threading.Thread):
         except Timeout:
             return False
 
-    def _update_cache(self, clean=False):
+    def _update_cache(self, clean=False, remove=True):
         """Update cache size and size of each file in the database ."""
         with self.connection as db:
             update = []
@@ -292,14 +293,25 @@ class CacheManager(threading.Thread):
                     else:
                         kind = "file"
                         size = os.path.getsize(path)
-                    update.append((size, kind, path))
+                    # when it got its final name
+                    created = datetime.datetime.fromtimestamp(os.stat(path).st_ctime)
+                    update.append((size, kind, created, path))
                 except Exception:
-                    if clean or self._is_abandoned(path):
+                    if clean or (remove and self._is_abandoned(path)):
                         db.execute("DELETE from cache WHERE path=?", (path,))
                         commit = True
 
             if update:
-                db.executemany("UPDATE cache SET size=?, type=? WHERE path=?", update)
+                db.executemany(
+                    """
+                    UPDATE cache
+                    SET size = ?,
+                        type = ?,
+                        creation_date = CASE WHEN owner = 'orphans' THEN creation_date
+                                             ELSE MAX(creation_date, ?) END
+                    WHERE path=?""",
+                    update,
+                )
 
             if update or commit:
                 db.commit()
@@ -538,6 +550,8 @@ class CacheManager(threading.Thread):
 
     def _cache_size(self):
         LOG.debug("cache_size")
+        # the process that created a file may have been killed before it updated the entry
+        self._update_cache(remove=False)
         with self.connection as db:
             size = db.execute("SELECT SUM(size) FROM cache").fetchone()[0]
             if size is None:
@@ -598,6 +612,7 @@ class CacheManager(threading.Thread):
         return "".join(html)
 
     def _dump_cache_database(self, matcher=lambda x: True):
+        self._update_cache(remove=False)
         result = []
         with self.connection as db:
             for d in db.execute("SELECT * FROM cache"):
-- 
2.43.0


From 07205f421c1fd4cdd759adcdd9318cd7b9f9f737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 58/73] fix: forget the size of a file before it is replaced

---
 src/earthkit/regrid/utils/caching.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index f7aa9a8..b75887c 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -1115,6 +1115,9 @@ def cache_file(
                         owner_data = create(path + ".tmp", args)
                         if os.path.isdir(path) or (os.path.exists(path) and os.path.isdir(path + ".tmp")):
                             CACHE._decache_file(path)
+                        if force:
+                            # before the file is replaced, the size may not be updated when killed
+                            CACHE._register_cache_file(path, owner, args, renew=True)
                         # A file is replaced at once, it may be in use by another thread/process
                         os.rename(path + ".tmp", path)
                     except BaseException:
@@ -1123,7 +1126,6 @@ def cache_file(
                         raise
                     if force:
                         LOG.info(f"cache file replaced by force: {path=}")
-                        CACHE._register_cache_file(path, owner, args, renew=True)
                     LOG.info(f"cache file created: {path=}")
                     if not CACHE._update_entry(path, owner_data):
                         # the entry was removed while the file was being created
-- 
2.43.0


From 87bc502a2a728b76bb4be0c0b375cc982f6168ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 59/73] fix: do not fork a process during a transaction of the
 cache database

---
 src/earthkit/regrid/utils/caching.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index b75887c..0d939ef 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -119,6 +119,11 @@ class Future:
         return self._result
 
 
+# Held while the database is used: a child process inherits what SQLite knows about
+# the locks of its parent, so it must not be forked during a transaction.
+_FORK_LOCK = threading.RLock()
+
+
 class CacheManager(threading.Thread):
     def __init__(self):
         super().__init__(daemon=True)
@@ -134,7 +139,8 @@ class CacheManager(threading.Thread):
                     self._condition.wait()
                 s = self._queue.pop(0)
                 self._condition.notify_all()
-            s.execute()
+            with _FORK_LOCK:
+                s.execute()
 
     @property
     def connection(self):
@@ -592,7 +598,7 @@ class CacheManager(threading.Thread):
             HTML status of the cache.
         """
         html = [css("table")]
-        with self.new_connection() as db:
+        with _FORK_LOCK, self.new_connection() as db:
             for n in db.execute("SELECT * FROM cache"):
                 n = dict(n)
                 n["missing"] = not os.path.exists(n["path"])
@@ -1174,4 +1180,9 @@ def cache_file(
 CONFIG.on_change(CACHE._config_changed)
 
 if hasattr(os, "register_at_fork"):
+    os.register_at_fork(
+        before=_FORK_LOCK.acquire,
+        after_in_parent=_FORK_LOCK.release,
+        after_in_child=_FORK_LOCK.release,
+    )
     os.register_at_fork(after_in_child=CACHE._after_fork_in_child)
-- 
2.43.0


From a6e4776e47bd171029eaf2fc9810ba5452a91eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:59 +0000
Subject: [PATCH 60/73] fix: the config file stays the same when the current
 directory changes

---
 src/earthkit/regrid/utils/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 6dc3270..c1bf616 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -671,6 +671,9 @@ def _init_config_file():
         LOG.error("Cannot construct earthkit-regrid config file path")
         return None
 
+    # the current directory can change before the config is saved
+    config_file = os.path.abspath(config_file)
+
     try:
         config_dir = os.path.dirname(config_file)
         if not os.path.exists(config_dir):
-- 
2.43.0


From 980f09dbf581dcc153ed673a07696bd8f82be5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:59 +0000
Subject: [PATCH 61/73] fix: restore the umask when the config directory cannot
 be created

---
 src/earthkit/regrid/utils/config.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index c1bf616..34167d7 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -678,8 +678,10 @@ def _init_config_file():
         config_dir = os.path.dirname(config_file)
         if not os.path.exists(config_dir):
             ori_mask = os.umask(0o077)
-            os.makedirs(config_dir, 0o700)
-            os.umask(ori_mask)
+            try:
+                os.makedirs(config_dir, 0o700)
+            finally:
+                os.umask(ori_mask)
     except Exception:
         LOG.error(
             f"Cannot create earthkit-regrid config directory={config_dir}",
-- 
2.43.0


From 9cd543e0cd46dd335cda34fbbfdced9479868470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:52 +0000
Subject: [PATCH 62/73] fix: save the configuration under a path that is not a
 str

---
 src/earthkit/regrid/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 34167d7..5528ef3 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -257,7 +257,7 @@ def save_config(path, config):
     LOG.debug("Saving config")
     from filelock import FileLock
 
-    lock = path + ".lock"
+    lock = f"{path}.lock"
     # write the file next to the target then move it into place, so the target is never
     # left truncated or half-written
     target = os.path.realpath(path)
-- 
2.43.0


From cda87dab9535c50c54fb5c4298322e1c87555e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 63/73] fix: accept numpy numbers in gridspecs with the memory
 cache

---
 src/earthkit/regrid/utils/hash.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/hash.py b/src/earthkit/regrid/utils/hash.py
index 0b2c527..7d20ffa 100644
--- a/src/earthkit/regrid/utils/hash.py
+++ b/src/earthkit/regrid/utils/hash.py
@@ -11,10 +11,17 @@ import hashlib
 import json
 
 
+def _to_json(value):
+    # e.g. the numbers of numpy
+    if hasattr(value, "item"):
+        return value.item()
+    raise TypeError(f"Object of type {type(value).__name__} is not JSON serializable")
+
+
 def make_sha(data):
     m = hashlib.sha256()
     if isinstance(data, str):
         m.update(data.encode("utf-8"))
     else:
-        m.update(json.dumps(data, sort_keys=True).encode("utf-8"))
+        m.update(json.dumps(data, sort_keys=True, default=_to_json).encode("utf-8"))
     return m.hexdigest()
-- 
2.43.0


From bcdcdb2d835b2dd619d03790619fdf2fabd185db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:38 +0000
Subject: [PATCH 64/73] fix: compare areas given as numpy numbers in double
 precision

---
 src/earthkit/regrid/gridspec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index bd2d515..c3c580a 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -55,8 +55,9 @@ class GridSpec(dict):
     @staticmethod
     def _normalise(d):
         for k, v in d.items():
-            if isinstance(v, tuple):
-                d[k] = list(v)
+            if isinstance(v, (list, tuple)):
+                # the numbers of numpy would make the comparisons less precise
+                d[k] = [x.item() if isinstance(x, np.generic) else x for x in v]
 
     @staticmethod
     def from_dict(d):
-- 
2.43.0


From e376aa0fd48262bac96d6f8bd20c229647ca709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:05 +0000
Subject: [PATCH 65/73] fix: keep the inventory of a lazy result when the
 current directory changes

---
 src/earthkit/regrid/backends/__init__.py | 13 +++++++++++--
 src/earthkit/regrid/data/xarray.py       |  7 ++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/earthkit/regrid/backends/__init__.py b/src/earthkit/regrid/backends/__init__.py
index 9229978..d98381e 100644
--- a/src/earthkit/regrid/backends/__init__.py
+++ b/src/earthkit/regrid/backends/__init__.py
@@ -68,11 +68,15 @@ class BackendMaker:
         else:
             return name
 
+    def resolve_kwargs(self, name, kwargs):
+        if name in self.BACKENDS:
+            return self.BACKENDS[name].resolve_kwargs(kwargs)
+        return kwargs
+
     def __call__(self, name, *args, **kwargs):
         loader = BackendLoader()
 
-        if name in self.BACKENDS:
-            kwargs = self.BACKENDS[name].resolve_kwargs(kwargs)
+        kwargs = self.resolve_kwargs(name, kwargs)
 
         key = self._make_key(name, *args, **kwargs)
         if key in self.BACKEND_OBJECTS:
@@ -118,6 +122,11 @@ class BackendMaker:
 MAKER = BackendMaker()
 
 
+def resolve_kwargs(name, kwargs):
+    """Return the keyword arguments of a backend in a form that always means the same."""
+    return MAKER.resolve_kwargs(name, kwargs)
+
+
 def get_backend(name, *args, **kwargs):
     """Get a backend by name."""
     return MAKER(name, *args, **kwargs)
diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index d3f730e..1e8ca68 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -272,12 +272,13 @@ class XarrayDataHandler(DataHandler):
         return ds
 
     def regrid(self, values, grid=None, **kwargs):
-        from .numpy import NumpyDataHandler
+        from earthkit.regrid.backends import resolve_kwargs
 
-        kwargs = kwargs.copy()
+        from .numpy import NumpyDataHandler
 
-        # a lazy result still needs the grid after the call
+        # a lazy result still needs the grid and the inventory after the call
         grid = copy.deepcopy(grid)
+        kwargs = resolve_kwargs(kwargs.get("backend"), kwargs.copy())
 
         in_grid = self.get_in_grid(values, kwargs)
         out_geo = self.get_out_geo(grid)
-- 
2.43.0


From 0ba7f6b0b03c1b0ffb80b422c734a8d9285375ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:36 +0000
Subject: [PATCH 66/73] fix: do not count files that were lost in the size of
 the cache

---
 src/earthkit/regrid/utils/caching.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 0d939ef..0d725d2 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -559,10 +559,12 @@ class CacheManager(threading.Thread):
         # the process that created a file may have been killed before it updated the entry
         self._update_cache(remove=False)
         with self.connection as db:
-            size = db.execute("SELECT SUM(size) FROM cache").fetchone()[0]
-            if size is None:
-                size = 0
-            return size
+            # a process may have been killed between the deletion of a file and that of its entry
+            return sum(
+                n["size"]
+                for n in db.execute("SELECT path, size FROM cache WHERE size IS NOT NULL").fetchall()
+                if os.path.exists(n["path"])
+            )
 
     def _decache_file(self, path):
         self._delete_entry(path)
@@ -631,7 +633,8 @@ class CacheManager(threading.Thread):
         return result
 
     def _summary_dump_cache_database(self, matcher=lambda x: True):
-        result = self._dump_cache_database(matcher=matcher)
+        # as in _cache_size()
+        result = [r for r in self._dump_cache_database(matcher=matcher) if os.path.exists(r["path"])]
         count = len(result)
         size = 0
         for r in result:
-- 
2.43.0


From 3d2c52a3f926a3b0888e5ec91851e66873ca8b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:22 +0000
Subject: [PATCH 67/73] fix: evict in the order of the accesses when the clock
 is set back

The dates of the cache are local times, so they are not in the order of
the accesses at the end of the daylight saving time or when processes in
different time zones share a cache: the newest files were evicted, and
purge() left entries behind.
---
 src/earthkit/regrid/utils/caching.py | 34 +++++++++++++++++++---------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 0d725d2..f8ec3bb 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -195,6 +195,18 @@ class CacheManager(threading.Thread):
         self._connection = None  # The user may have changed the cache directory
         self._check_cache_size()
 
+    @staticmethod
+    def _now(db):
+        """Returns the date of what is done now. It is later than all the others, although
+        the clock can be set back and other processes can be in another time zone.
+        """
+        now = datetime.datetime.now()
+        latest = db.execute("SELECT MAX(MAX(creation_date), MAX(last_access)) FROM cache").fetchone()[0]
+        if latest is not None:
+            latest = datetime.datetime.fromisoformat(latest)
+            now = max(now, latest + datetime.timedelta(microseconds=1))
+        return now
+
     def _latest_date(self):
         """Returns the latest date to be used when purging the cache.
         So we do not purge files being downloaded.
@@ -257,7 +269,7 @@ class CacheManager(threading.Thread):
                     size = ?, type = ?, owner_data = ?
                 WHERE path=?""",
                 (
-                    datetime.datetime.now(),
+                    self._now(db),
                     size,
                     kind,
                     json.dumps(owner_data, default=default_serialiser),
@@ -378,14 +390,14 @@ class CacheManager(threading.Thread):
                 else:
                     LOG.debug(f"earthkit-regrid cache: orphan found: {full} with parent {parent}")
 
-                self._register_cache_file(
-                    full,
-                    "orphans",
-                    None,
-                    parent,
-                    # it must not become the latest entry, which is never evicted
-                    now=datetime.datetime.fromtimestamp(s.st_mtime),
-                )
+                # it must not become the latest entry, which is never evicted
+                now = datetime.datetime.fromtimestamp(s.st_mtime)
+                latest = db.execute("SELECT MAX(creation_date) FROM cache").fetchone()[0]
+                if latest is not None:
+                    latest = datetime.datetime.fromisoformat(latest)
+                    now = min(now, latest - datetime.timedelta(microseconds=1))
+
+                self._register_cache_file(full, "orphans", None, parent, now=now)
         self._update_cache(clean=clean)
 
     def _delete_file(self, path):
@@ -476,7 +488,7 @@ class CacheManager(threading.Thread):
         total = 0
 
         with self.connection as db:
-            latest = datetime.datetime.now() if purge else self._latest_date()
+            latest = datetime.datetime.max if purge else self._latest_date()
 
             for stmt in (
                 "SELECT * FROM cache WHERE size IS NOT NULL AND owner='orphans' AND creation_date < ?",
@@ -517,7 +529,7 @@ class CacheManager(threading.Thread):
         self._ensure_in_cache(path)
 
         with self.connection as db:
-            now = datetime.datetime.now() if now is None else now
+            now = self._now(db) if now is None else now
 
             args = json.dumps(args, default=default_serialiser)
 
-- 
2.43.0


From f1ebd7d96f15bf63febe6cffbdc6cdc4e303f740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:25 +0000
Subject: [PATCH 68/73] fix: an abandoned creation does not make an orphan the
 latest entry

---
 src/earthkit/regrid/utils/caching.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index f8ec3bb..71addab 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -392,7 +392,9 @@ class CacheManager(threading.Thread):
 
                 # it must not become the latest entry, which is never evicted
                 now = datetime.datetime.fromtimestamp(s.st_mtime)
-                latest = db.execute("SELECT MAX(creation_date) FROM cache").fetchone()[0]
+                latest = db.execute(
+                    "SELECT MAX(creation_date) FROM cache WHERE size IS NOT NULL"
+                ).fetchone()[0]
                 if latest is not None:
                     latest = datetime.datetime.fromisoformat(latest)
                     now = min(now, latest - datetime.timedelta(microseconds=1))
-- 
2.43.0


From 5ed1ea31fb2b5becadb685cc618951f5a8ceb5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:07 +0000
Subject: [PATCH 69/73] fix: the temporary cache policy does not need the user
 directory

---
 src/earthkit/regrid/utils/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 71addab..e04b5cb 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -835,7 +835,8 @@ class TmpCachePolicy(UserCachePolicy):
     _name = "temporary"
 
     def __init__(self):
-        super().__init__()
+        # the user directory is not needed, and may not be usable
+        CachePolicy.__init__(self)
         root_dir = self._expand_path(self._config.get("temporary-cache-directory-root"))
         self._dir = temp_directory(dir=root_dir)
 
-- 
2.43.0


From c7f9814b4adeba4ab5bbea0e907a92beca7e7da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:06 +0000
Subject: [PATCH 70/73] fix: an addition that fails does not replace the
 weights of an entry

---
 src/earthkit/regrid/utils/builder.py | 33 ++++++++++++++--------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/earthkit/regrid/utils/builder.py b/src/earthkit/regrid/utils/builder.py
index 9f2ea04..356a3f1 100644
--- a/src/earthkit/regrid/utils/builder.py
+++ b/src/earthkit/regrid/utils/builder.py
@@ -121,8 +121,6 @@ def make_matrix(input_path, output_path, index_file=None, global_input=None, glo
 
     print(f"entry={entry}")
     npz_file = os.path.join(matrix_output_path, f"{name}.npz")
-    with atomic(npz_file) as tmp:
-        mir_cached_matrix_to_file(cache_file, tmp)
 
     if index_file is None:
         index_file = os.path.join(output_path, "index.json")
@@ -147,21 +145,24 @@ def make_matrix(input_path, output_path, index_file=None, global_input=None, glo
     if global_output is not None and "global" not in entry["output"]:
         entry["output"]["global"] = 1 if global_output else 0
 
-    # get matrix size
-    z = load_npz(npz_file)
-    mem_size = matrix_memory_size(z)
-    z = None
-
-    index["matrix"][key] = dict(
-        input=convert(entry["input"]),
-        output=convert(entry["output"]),
-        interpolation=entry["interpolation"],
-        nnz=entry["matrix"]["nnz"],
-        memory=mem_size,
-    )
+    # neither is replaced unless both can be written, first the matrix and then the index
+    with atomic(index_file) as index_tmp, atomic(npz_file) as npz_tmp:
+        mir_cached_matrix_to_file(cache_file, npz_tmp)
+
+        # get matrix size
+        z = load_npz(npz_tmp)
+        mem_size = matrix_memory_size(z)
+        z = None
+
+        index["matrix"][key] = dict(
+            input=convert(entry["input"]),
+            output=convert(entry["output"]),
+            interpolation=entry["interpolation"],
+            nnz=entry["matrix"]["nnz"],
+            memory=mem_size,
+        )
 
-    with atomic(index_file) as tmp:
-        with open(tmp, "w") as f:
+        with open(index_tmp, "w") as f:
             json.dump(index, f, indent=4)
 
     print("Written", npz_file)
-- 
2.43.0


From 75dbaf80501985d6488161d3e746b4635e6a323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:04 +0000
Subject: [PATCH 71/73] fix: copied weights and written indexes replace
 existing files when they are complete

---
 src/earthkit/regrid/backends/db.py     |  4 +++-
 src/earthkit/regrid/utils/builder.py   | 15 +--------------
 src/earthkit/regrid/utils/temporary.py | 14 ++++++++++++++
 tools/manage/merge_index.py            |  7 +++++--
 tools/subset/subset_remote_db.py       |  6 ++++--
 5 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 89cf855..d94eb36 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -19,6 +19,7 @@ from scipy.sparse import load_npz
 from earthkit.regrid.gridspec import GridSpec
 from earthkit.regrid.utils import no_progress_bar
 from earthkit.regrid.utils.download import download_and_cache
+from earthkit.regrid.utils.temporary import atomic
 
 LOG = logging.getLogger(__name__)
 
@@ -564,7 +565,8 @@ class MatrixDb:
 
         if not dry_run:
             os.makedirs(target_dir, exist_ok=True)
-            shutil.copyfile(src_file, target_file)
+            with atomic(target_file) as tmp:
+                shutil.copyfile(src_file, tmp)
 
         return target_file
 
diff --git a/src/earthkit/regrid/utils/builder.py b/src/earthkit/regrid/utils/builder.py
index 356a3f1..19b60d5 100644
--- a/src/earthkit/regrid/utils/builder.py
+++ b/src/earthkit/regrid/utils/builder.py
@@ -10,7 +10,6 @@
 import hashlib
 import json
 import os
-from contextlib import contextmanager
 
 from scipy.sparse import load_npz
 
@@ -19,6 +18,7 @@ from earthkit.regrid.backends.db import MatrixIndex
 
 from .matrix import matrix_memory_size
 from .mir import mir_cached_matrix_to_file
+from .temporary import atomic
 
 
 def regular_ll(entry):
@@ -74,19 +74,6 @@ def get_method_name(entry):
     return method
 
 
-@contextmanager
-def atomic(path):
-    """Provide a temporary path, which replaces ``path`` if all goes well."""
-    root, ext = os.path.splitext(path)
-    tmp = f"{root}.{os.getpid()}.tmp{ext}"
-    try:
-        yield tmp
-        os.replace(tmp, path)
-    finally:
-        if os.path.exists(tmp):
-            os.unlink(tmp)
-
-
 def make_matrix(input_path, output_path, index_file=None, global_input=None, global_output=None):
 
     with open(input_path) as f:
diff --git a/src/earthkit/regrid/utils/temporary.py b/src/earthkit/regrid/utils/temporary.py
index 70db7c2..0622753 100644
--- a/src/earthkit/regrid/utils/temporary.py
+++ b/src/earthkit/regrid/utils/temporary.py
@@ -9,6 +9,7 @@
 
 import os
 import tempfile
+from contextlib import contextmanager
 
 
 class TmpFile:
@@ -73,3 +74,16 @@ class TmpDirectory(tempfile.TemporaryDirectory):
 
 def temp_directory(dir=None):
     return TmpDirectory(dir=dir)
+
+
+@contextmanager
+def atomic(path):
+    """Provide a temporary path, which replaces ``path`` if all goes well."""
+    root, ext = os.path.splitext(path)
+    tmp = f"{root}.{os.getpid()}.tmp{ext}"
+    try:
+        yield tmp
+        os.replace(tmp, path)
+    finally:
+        if os.path.exists(tmp):
+            os.unlink(tmp)
diff --git a/tools/manage/merge_index.py b/tools/manage/merge_index.py
index 4a2fbde..9595329 100644
--- a/tools/manage/merge_index.py
+++ b/tools/manage/merge_index.py
@@ -9,6 +9,8 @@ sys.path.insert(0, os.path.dirname(here))
 
 from utils.matrix import download_index_file  # noqa
 
+from earthkit.regrid.utils.temporary import atomic  # noqa
+
 LOG = logging.getLogger(__name__)
 logging.basicConfig(level=logging.INFO, format="%(levelname)s: %(message)s")
 
@@ -18,8 +20,9 @@ This script merges multiple index.json files into a single index.json file.
 
 
 def to_file(d, target):
-    with open(target, "w") as f:
-        json.dump(d, f, indent=4)
+    with atomic(target) as tmp:
+        with open(tmp, "w") as f:
+            json.dump(d, f, indent=4)
 
 
 def check_file(target, ref_num):
diff --git a/tools/subset/subset_remote_db.py b/tools/subset/subset_remote_db.py
index 0e5893f..7a9451c 100644
--- a/tools/subset/subset_remote_db.py
+++ b/tools/subset/subset_remote_db.py
@@ -16,6 +16,7 @@ import sys
 import yaml
 
 from earthkit.regrid.backends.db import SYS_DB as DB
+from earthkit.regrid.utils.temporary import atomic
 
 LOG = logging.getLogger(__name__)
 
@@ -51,8 +52,9 @@ def subset_remote_db(conf_file, out_dir, strict=True, fail_on_missing=True, dry_
     # save index file
     index_file = os.path.join(out_dir, "index.json")
     if not dry_run:
-        with open(index_file, "w") as f:
-            json.dump(index.to_raw(), f, indent=4)
+        with atomic(index_file) as tmp:
+            with open(tmp, "w") as f:
+                json.dump(index.to_raw(), f, indent=4)
 
     LOG.info(f"Index data saved to {index_file}")
 
-- 
2.43.0


From 0e57c127d18eac29308be341b1c548650617d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:08 +0000
Subject: [PATCH 72/73] fix: delete a temporary cache directory when the cache
 does not use it any more

---
 src/earthkit/regrid/utils/caching.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index e04b5cb..cee3fcc 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -893,6 +893,11 @@ class Cache:
             with self._policy_lock:
                 # Check again, another thread/process may have modified the policy
                 if self._policy.outdated():
+                    # a temporary directory is deleted with its policy, so the manager
+                    # must not use it any more
+                    with self._manager_lock:
+                        if self._manager is not None:
+                            self._manager.enqueue(lambda: None).result()
                     self._policy = None
                     self._make_policy()
         elif self.policy.update() and self.policy.managed():
-- 
2.43.0


From 66996fc4352df3ff411141352bb0dfe61defd1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:59 +0000
Subject: [PATCH 73/73] fix: processes that start at the same time can create
 the root of their temporary directories

---
 src/earthkit/regrid/utils/temporary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/temporary.py b/src/earthkit/regrid/utils/temporary.py
index 0622753..5cfacb7 100644
--- a/src/earthkit/regrid/utils/temporary.py
+++ b/src/earthkit/regrid/utils/temporary.py
@@ -64,7 +64,7 @@ class TmpDirectory(tempfile.TemporaryDirectory):
         if d == "":
             raise ValueError("TmpDirectory: dir option cannot be an empty str!")
         if d is not None and not os.path.exists(d):
-            os.makedirs(d)
+            os.makedirs(d, exist_ok=True)
         super().__init__(*args, **kwargs)
 
     @property
-- 
2.43.0

