From 71a55268bfc9f5e08f0cde465ff006abcfba5245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 01/78] fix: treat a missing external source file as a change

A source registered with add_external_dependencies_to_call that no longer
exists was ignored, so the call kept returning the result cached from the
deleted file.
---
 lib/fbuild/db/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 099e6b4..4f4d593 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -246,7 +246,8 @@ class Backend:
                 try:
                     d, file_id, file_digest = self.check_call_file(call_id, src)
                 except OSError:
-                    pass
+                    # The file's gone, so the call is dirty.
+                    external_digests.append((None, src, None))
                 else:
                     if d:
                         external_digests.append((file_id, src, file_digest))
-- 
2.43.0


From d3cf364e22c87e6ed8da1947c22623ca117051d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:52 +0000
Subject: [PATCH 02/78] fix: keep a changed file's record and the calls that
 use it

When the content of a file changed, add_file deleted it from the database
first. In the sqlite backend this also deleted it from the external
sources and destinations of every call, so the other calls using the file
did not notice this and any later change.
---
 lib/fbuild/db/backend.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 4f4d593..57ef208 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -300,15 +300,9 @@ class Backend:
             self.save_file(file_id, file_name, file_mtime, digest)
             return False, file_id, file_mtime, digest
 
-        if file_id is not None:
-            # Since the function changed, all of the calls that used this
-            # function are dirty.
-            self.delete_file(file_name)
-
-            # The file_id is now invalid.
-            file_id = None
-
-        # Now, add the file back to the database.
+        # Save the new digest. The calls that used the old content are dirty
+        # because their call file digests don't match any more. They still
+        # depend on the file, so don't delete it.
         file_id = self.save_file(file_id, file_name, file_mtime, digest)
 
         # Returns True since the file changed.
-- 
2.43.0


From e8fc81a6197dce8ce65f6b8f3276c0340ffcde0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 03/78] fix: forget the functions that depend on a changed
 function

If a changed function was called directly before a function that depends on
it, its new digest was saved, and the dependent function no longer noticed
the change and returned its stale results.
---
 lib/fbuild/db/backend.py        | 10 ++++++++++
 lib/fbuild/db/cache_backend.py  |  8 ++++++++
 lib/fbuild/db/sqlite_backend.py | 10 ++++++++++
 3 files changed, 28 insertions(+)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 57ef208..f6224a3 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -105,6 +105,11 @@ class Backend:
                 # The fun_id is now invalid.
                 fun_id = None
 
+            # The functions that depend on this function can't tell that it
+            # changed once we saved the new digest, so delete them too.
+            for dependent in self.find_dependents(fun_name):
+                self.delete_function(dependent)
+
             fun_id = self.save_function(fun_id, fun_name, fun_digest,
                                         fun_dependents)
 
@@ -148,6 +153,11 @@ class Backend:
         raise NotImplementedError
 
 
+    def find_dependents(self, fun_name):
+        """Returns the names of the functions that depend on this function."""
+        raise NotImplementedError
+
+
     def save_function(self, fun_id, fun_name, fun_digest, fun_dependents):
         """Insert or update the function's digest."""
         raise NotImplementedError
diff --git a/lib/fbuild/db/cache_backend.py b/lib/fbuild/db/cache_backend.py
index 6145abf..c3e494b 100644
--- a/lib/fbuild/db/cache_backend.py
+++ b/lib/fbuild/db/cache_backend.py
@@ -50,6 +50,14 @@ class CacheBackend(fbuild.db.backend.Backend):
         return fun_id, fun_digest, fun_dependents
 
 
+    def find_dependents(self, fun_name):
+        """Returns the names of the functions that depend on this function."""
+
+        return [name
+            for name, (fun_digest, fun_dependents) in self._functions.items()
+            if fun_name in fun_dependents]
+
+
     def save_function(self, fun_id, fun_name, fun_digest, fun_dependents):
         """Insert or update the function's digest."""
 
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 9e1a561..1447406 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -161,6 +161,16 @@ class SqliteBackend(fbuild.db.backend.Backend):
             return fun_id, fun_digest, split_dependents
 
 
+    def find_dependents(self, fun_name):
+        """Returns the names of the functions that depend on this function."""
+
+        self.cursor.execute('SELECT fun_name,fun_dependents FROM Function')
+
+        return [name
+            for name, fun_dependents in self.cursor.fetchall()
+            if fun_name in fun_dependents.split('\0')]
+
+
     def save_function(self, fun_id, fun_name, fun_digest, fun_dependents):
         """Insert or update the function's digest."""
 
-- 
2.43.0


From f9c96b4c22fc8ee944cee39a439e2d2276146f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:49 +0000
Subject: [PATCH 04/78] fix: pop the call stack when a cached function raises

A function that survived the failure of a cached function it called lost
the dependency on every cached function it called afterwards.
---
 lib/fbuild/db/database.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index cf635b0..286c813 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -181,8 +181,11 @@ class Database:
         external_dsts = set()
 
         # The call was dirty, so recompute it.
-        call_result = outer_function(*args, **kwargs)
-        fun_dependents = tuple(self._callstack.pop())
+        try:
+            call_result = outer_function(*args, **kwargs)
+        finally:
+            # Don't leave our frame behind if the function failed.
+            fun_dependents = tuple(self._callstack.pop())
 
         # Make sure the result is not a generator.
         assert not fbuild.inspect.isgenerator(call_result), \
-- 
2.43.0


From a712643b085407a92b275520c1b2609d5d344597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:49 +0000
Subject: [PATCH 05/78] fix: check mutually recursive cached functions

check_function recursed endlessly if two cached functions called each other.
---
 lib/fbuild/db/backend.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index f6224a3..529264e 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -139,8 +139,12 @@ class Backend:
         fun_dirty = old_digest is None or fun_digest != old_digest
         if not fun_dirty:
             # Have any of it's dependents changed?
-            for dep in set(fun_dependents) - already_checked:
-                dep_dirty, _ = self.check_function(dep)
+            for dep in set(fun_dependents):
+                # The functions may depend on each other.
+                if dep in already_checked:
+                    continue
+
+                dep_dirty, _ = self.check_function(dep, already_checked)
                 if dep_dirty:
                     fun_dirty = True
                     break
-- 
2.43.0


From 2178d7ecbb328c0a7b149b610f1548969bab3dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 06/78] fix: remember the functions every call of a function
 depends on

Only the first call after a function changed saved the cached functions it
used. Changes of functions only used by later calls went unnoticed.
---
 lib/fbuild/db/backend.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 529264e..5de9bdc 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -112,6 +112,13 @@ class Backend:
 
             fun_id = self.save_function(fun_id, fun_name, fun_digest,
                                         fun_dependents)
+        else:
+            # This call may depend on functions the earlier calls didn't use.
+            _, _, old_dependents = self.find_function(fun_name)
+            new_dependents = set(fun_dependents).difference(old_dependents)
+            if new_dependents:
+                self.save_function(fun_id, fun_name, fun_digest,
+                    tuple(old_dependents) + tuple(sorted(new_dependents)))
 
         # Get the real call_id to use in the call files.
         call_id = self.save_call(call_id, fun_id, bound, result)
-- 
2.43.0


From b694d3a5f0d62a135250508f2097223b706539c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 07/78] fix: save a function only once if its calls overlap

A recursive cached function (or one first called from two threads) saved
itself twice: the sqlite backend failed with an IntegrityError, and the
others dropped the inner call's result.
---
 lib/fbuild/db/backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 5de9bdc..f640052 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -96,6 +96,11 @@ class Backend:
             external_dsts):
         """Saves the function call into the database."""
 
+        # The function may have been saved since we checked it, either because
+        # it's recursive, or because it's also running in another thread.
+        if fun_dirty:
+            fun_dirty, fun_id = self.check_function(fun_name)
+
         # Lock the db since we're updating data structures.
         if fun_dirty:
             # Since the function changed, delete out all the related data.
-- 
2.43.0


From d991cd5353943e845d820c3481df2198d9bc2ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 08/78] fix: import the modules of dependent functions before
 checking them

With the sqlite backend, a cached function that imports a module and calls a
cached function from it (such as fbuild.functools.call does) failed with a
KeyError in the next run, because the module was not imported yet. The same
happened if the function did not exist any more.
---
 lib/fbuild/db/backend.py  |  6 +++++-
 lib/fbuild/db/database.py | 11 +++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index f640052..004aba6 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -144,7 +144,11 @@ class Backend:
             already_checked = set()
         already_checked.add(fun_name)
 
-        fun_digest = Database.get_function_digest_from_map(fun_name)
+        try:
+            fun_digest = Database.get_function_digest_from_map(fun_name)
+        except KeyError:
+            # The function does not exist any more, so it's changed.
+            fun_digest = None
         fun_id, old_digest, fun_dependents = self.find_function(fun_name)
 
         # Has the function changed?
diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 286c813..7e5695d 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -234,6 +234,17 @@ class Database:
     @fbuild.functools.cached
     def get_function_digest_from_map(self, fun_name):
         """Get the function digest from the global function map."""
+        if fun_name not in self._FUN_DIGESTS:
+            # The function is a dependent from an earlier run, and the module
+            # it's defined in may not have been imported yet.
+            module = fun_name.rpartition('.')[0]
+            while module and fun_name not in self._FUN_DIGESTS:
+                try:
+                    fbuild.functools.import_module(module)
+                except ImportError:
+                    pass
+                module = module.rpartition('.')[0]
+
         return self._FUN_DIGESTS[fun_name]()
 
     @staticmethod
-- 
2.43.0


From 3e9d9b42ac96dc9f2324195502e46285fb2a4222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:39 +0000
Subject: [PATCH 09/78] fix: make --delete-function and --delete-file work with
 sqlite

They reported that nothing was cached, and the calls that registered the
deleted file with add_external_dependencies_to_call forgot about it.
---
 lib/fbuild/db/sqlite_backend.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 1447406..75331ca 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -228,6 +228,8 @@ class SqliteBackend(fbuild.db.backend.Backend):
             'DELETE FROM Function WHERE fun_name=?',
             (fun_name,))
 
+        return self.cursor.rowcount > 0
+
     # --------------------------------------------------------------------------
 
     def _pickle_dumps(self, obj):
@@ -519,10 +521,19 @@ class SqliteBackend(fbuild.db.backend.Backend):
 
         # Exit early if we got nothing returned.
         if not rows:
-            return
+            return False
 
         (file_id,), = rows
 
+        # The calls that registered the file themselves can't tell that it's
+        # missing from their records, so delete them.
+        self.cursor.execute('''
+            DELETE FROM Call WHERE call_id IN (
+                SELECT call_id FROM ExternalSrc WHERE file_id=?
+                UNION
+                SELECT call_id FROM ExternalDst WHERE file_id=?)
+            ''', (file_id, file_id))
+
         # And delete all of the related call files.
         self.cursor.execute(
             'DELETE FROM CallFile WHERE file_id=?',
@@ -537,3 +548,5 @@ class SqliteBackend(fbuild.db.backend.Backend):
             (file_id,))
 
         self.cursor.execute('DELETE FROM File WHERE file_name=?', (file_name,))
+
+        return True
-- 
2.43.0


From 4af01896e09aa8010030b492e9a2dbea9b33749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:39 +0000
Subject: [PATCH 10/78] fix: remember external destinations that are also
 sources with sqlite

---
 lib/fbuild/db/sqlite_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 75331ca..528a9e3 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -463,7 +463,7 @@ class SqliteBackend(fbuild.db.backend.Backend):
             self.cursor.executemany(
                 'INSERT INTO ExternalDst (call_id,file_id) VALUES (?,?)',
                 ((call_id, file_id)
-                    for dirty, file_id, file_digest in dst_call_files if dirty))
+                    for dirty, file_id, file_digest in dst_call_files))
 
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From 80900c05057ae223b718da20708a91ccfedecb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:39 +0000
Subject: [PATCH 11/78] fix: don't mark an outdated state file as up to date
 before removing it

---
 lib/fbuild/db/backend.py        | 9 ++++++++-
 lib/fbuild/db/sqlite_backend.py | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 004aba6..f82358c 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -29,7 +29,8 @@ class Backend:
         self._connect(*args, **kwargs)
         if self._file_name is not None and self.version() != self.latest_version():
             # Database cache spec has been updated in the mean time, so re-create it.
-            self.close()
+            # Don't save it, since that would mark the old data as up to date.
+            self._disconnect()
             self._file_name.remove()
             self._connect(*args, **kwargs)
 
@@ -38,6 +39,12 @@ class Backend:
         raise NotImplementedError
 
 
+    def _disconnect(self):
+        """Disconnect from the database without saving it (backend
+        implementation)."""
+        pass
+
+
     def close(self, *args, **kwargs):
         """Close the connection to the database backend."""
         raise NotImplementedError
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 528a9e3..8be1509 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -53,6 +53,12 @@ class SqliteBackend(fbuild.db.backend.Backend):
         self._version = rows[0][0] if rows else self._NULL_VERSION
 
 
+    def _disconnect(self):
+        """Disconnect from the database without saving it."""
+
+        self.conn.close()
+
+
     def close(self):
         # Update the version.
 
-- 
2.43.0


From 11f59809bf3564c4c5b4313548cbc44a5b1cacf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:39 +0000
Subject: [PATCH 12/78] fix: start clean if a module the state refers to is
 gone

---
 lib/fbuild/db/pickle_backend.py |  4 ++--
 lib/fbuild/db/sqlite_backend.py | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/fbuild/db/pickle_backend.py b/lib/fbuild/db/pickle_backend.py
index a3af2a7..368b62f 100644
--- a/lib/fbuild/db/pickle_backend.py
+++ b/lib/fbuild/db/pickle_backend.py
@@ -19,8 +19,8 @@ class PickleBackend(fbuild.db.cache_backend.CacheBackend):
                 unpickler = fbuild.db.backend.Unpickler(self._ctx, f)
                 try:
                     data = unpickler.load()
-                except AttributeError:
-                    # Likely a moved member. Just start clean!
+                except (AttributeError, ImportError):
+                    # Likely a moved member or module. Just start clean!
                     super()._connect()
                     return
 
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 8be1509..e3e84a0 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -303,12 +303,16 @@ class SqliteBackend(fbuild.db.backend.Backend):
                 FROM Call
                 WHERE fun_id=?
                 ''', (fun_id,)):
-            old_bound = self._pickle_loads(old_bound)
+            try:
+                old_bound = self._pickle_loads(old_bound)
 
-            if bound == old_bound:
-                old_result = self._pickle_loads(old_result)
+                if bound == old_bound:
+                    old_result = self._pickle_loads(old_result)
 
-                return False, call_id, old_result
+                    return False, call_id, old_result
+            except (AttributeError, ImportError):
+                # Likely a moved member or module. Ignore the call!
+                pass
         else:
             return True, None, None
 
-- 
2.43.0


From 8541ab76e6f560dd88db38e9c4fdbf2ccc531a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 13/78] fix: don't lose the state file if fbuild dies while
 saving it

---
 lib/fbuild/db/pickle_backend.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/lib/fbuild/db/pickle_backend.py b/lib/fbuild/db/pickle_backend.py
index 368b62f..2541933 100644
--- a/lib/fbuild/db/pickle_backend.py
+++ b/lib/fbuild/db/pickle_backend.py
@@ -1,4 +1,5 @@
 import io
+import os
 import pickle
 
 import fbuild.db.cache_backend
@@ -53,21 +54,13 @@ class PickleBackend(fbuild.db.cache_backend.CacheBackend):
 
         s = f.getvalue()
 
-        # Try to save the state as atomically as possible. Unfortunately, if
-        # someone presses ctrl+c while we're saving, we might corrupt the db.
-        # So, we'll write to a temp file, then move the old state file out of
-        # the way, then rename the temp file to the filename.
+        # Save the state atomically. If someone presses ctrl+c while we're
+        # saving, we might corrupt the db. So, we'll write to a temp file, then
+        # replace the old state file with it.
         path = fbuild.path.Path(self._file_name)
         tmp = path + '.tmp'
-        old = path + '.old'
 
         with open(tmp, 'wb') as f:
             f.write(s)
 
-        if path.exists():
-            path.rename(old)
-
-        tmp.rename(path)
-
-        if old.exists():
-            old.remove()
+        os.replace(tmp, path)
-- 
2.43.0


From f103e8ca9a387b60c04ac814f9acee5545aa907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 14/78] fix: tell persistent objects of derived classes and
 with more members apart

---
 lib/fbuild/db/__init__.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/lib/fbuild/db/__init__.py b/lib/fbuild/db/__init__.py
index be56d8c..5a3a333 100644
--- a/lib/fbuild/db/__init__.py
+++ b/lib/fbuild/db/__init__.py
@@ -138,18 +138,11 @@ class PersistentObject(metaclass=PersistentMeta):
         if self is other:
             return True
 
-        if not isinstance(other, type(self)):
+        # Objects of derived classes may behave differently.
+        if type(other) is not type(self):
             return False
 
-        # Step through the members and exit if they aren't equal.
-        try:
-            for key in self.__dict__:
-                if getattr(self, key) != getattr(other, key):
-                    return False
-        except AttributeError:
-            return False
-        else:
-            return True
+        return self.__dict__ == other.__dict__
 
 # ------------------------------------------------------------------------------
 
-- 
2.43.0


From 4a3e1a65ab805c01dfd232cf88fbf20f25bf0f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:07 +0000
Subject: [PATCH 15/78] fix: compare the metadata of libraries and executables
 in !=

---
 lib/fbuild/builders/c/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/fbuild/builders/c/__init__.py b/lib/fbuild/builders/c/__init__.py
index 8e56724..70b18a6 100644
--- a/lib/fbuild/builders/c/__init__.py
+++ b/lib/fbuild/builders/c/__init__.py
@@ -291,6 +291,10 @@ class Library(Path):
             self.libs == other.libs and \
             self.external_libs == other.external_libs
 
+    def __ne__(self, other):
+        # Otherwise we'd only compare the paths.
+        return not self == other
+
     def __hash__(self):
         return hash((
             super().__hash__(),
@@ -326,6 +330,10 @@ class Executable(Path):
             super().__eq__(other) and \
             self.libs == other.libs
 
+    def __ne__(self, other):
+        # Otherwise we'd only compare the paths.
+        return not self == other
+
     def __hash__(self):
         return hash((
             super().__hash__(),
-- 
2.43.0


From d9ef83c5bf03edd6aba90e6f7b6976703563dc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 16/78] fix: create persistent objects again if their
 constructor changed

---
 lib/fbuild/db/database.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 7e5695d..0ffa75d 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -297,6 +297,19 @@ class Database:
             # the source. If the function is a builtin, we will raise
             # an exception.
             src = fbuild.inspect.getsource(function)
+
+            cls = getattr(function, '__self__', None)
+            if isinstance(cls, fbuild.db.PersistentMeta):
+                # We're creating an object, so digest the constructors too.
+                for base in cls.__mro__:
+                    init = base.__dict__.get('__init__')
+                    try:
+                        src += fbuild.inspect.getsource(
+                            fbuild.functools.unwrap(init))
+                    except (TypeError, OSError):
+                        # It's a builtin or it was defined interactively.
+                        pass
+
             digest = hashlib.md5(src.encode()).hexdigest()
         else:
             # The function is a functor so let it digest itself.
-- 
2.43.0


From 2797c38bf050e34b06aaa9845ae19cf050c92ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:59 +0000
Subject: [PATCH 17/78] fix: accept rpc calls as soon as the thread is started

The thread set the running flag after start() could return, so that the
first call could raise RPCNotRunning.
---
 lib/fbuild/rpc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index e8f6b0e..c31ef6b 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -70,6 +70,10 @@ class RPC(threading.Thread):
             return result.result
 
     def start(self, *args, **kwargs):
+        # Accept calls as soon as we return. They're queued until the thread
+        # gets around to running.
+        self._running = True
+
         super().start(*args, **kwargs)
 
         self._started.wait()
@@ -78,7 +82,6 @@ class RPC(threading.Thread):
         """Run the rpc thread."""
 
         self._started.set()
-        self._running = True
 
         try:
             while True:
-- 
2.43.0


From f20d2fb776a0b588fc9ed9106b82e5e3c177cf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:59 +0000
Subject: [PATCH 18/78] fix: don't wait forever if two threads shut an rpc
 thread down

---
 lib/fbuild/rpc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index c31ef6b..3bfb6d7 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -126,8 +126,10 @@ class RPC(threading.Thread):
     def join(self, *args, **kwargs):
         """Inform the thread to shut down."""
 
-        if self._running:
-            with self._lock:
+        with self._lock:
+            # Check this with the lock held, because another thread may have
+            # shut us down in the meantime.
+            if self._running:
                 # Shut down the queue first.
                 self._queue.put(_NULL)
                 self._queue.join()
-- 
2.43.0


From d1227b854722f56c125ffd1d4623f9f5170bbe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:42 +0000
Subject: [PATCH 19/78] fix: don't let a thread release the controlling lock of
 another one

Scheduler.interruptible released the lock if any thread had it. If the main
thread called it while a worker was just about to return, the worker died or
everyone waited forever.
---
 lib/fbuild/sched.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 35718c7..c202b7c 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -88,8 +88,9 @@ class Scheduler:
             import fbuild.console
             logger = fbuild.console.Log()
 
-        # Set up the controlling lock.
-        self.__controlling_lock = threading.Lock()
+        # Set up the controlling lock. It must only be released by the thread
+        # that holds it.
+        self.__controlling_lock = threading.RLock()
 
         # Spin up our threads!
         for i in range(threadcount):
-- 
2.43.0


From 444b49a5539b34cf60a954ea4974fd277e0b0c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:42 +0000
Subject: [PATCH 20/78] fix: don't take the shutdown requests of other threads

A thread that was running nested tasks while the scheduler was shut down used
up the request another thread needed to wake up, so the shutdown never ended.
---
 lib/fbuild/sched.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index c202b7c..9c7beda 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -242,7 +242,7 @@ class Scheduler:
                 # until all of our tasks are done.
                 try:
                     with self.interruptible():
-                        task = current_thread.read_task(block=False)
+                        task = current_thread.read_nested_task()
                 except queue.Empty:
                     pass
                 else:
@@ -358,6 +358,24 @@ class WorkerThread(threading.Thread):
 
         return self.__ready_queue.get(*args, **kwargs)
 
+    def read_nested_task(self):
+        """
+        Try to read one task without blocking. The requests to shut down are
+        left for the threads that are waiting for work.
+        """
+
+        shutdowns = 0
+        try:
+            while True:
+                queue_task = self.read_task(block=False)
+                if queue_task is not None:
+                    return queue_task
+                shutdowns += 1
+        finally:
+            for i in range(shutdowns):
+                self.__ready_queue.put(None)
+                self.__ready_queue.task_done()
+
     def run_one(self, queue_task):
         """
         Try to run one task. Returns True if we actually ran a function,
-- 
2.43.0


From 2ab6e43e5b3a6f0dd9f5f3bc7c7a6f609a38b7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:43 +0000
Subject: [PATCH 21/78] fix: don't go on running tasks after one of them failed

The caller saw the exception while the other tasks were still running or
waiting to run.
---
 lib/fbuild/sched.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 9c7beda..f7a5625 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -235,6 +235,9 @@ class Scheduler:
         # The list of function results.
         results = []
 
+        # The first exception that was raised.
+        error = None
+
         # Run until all of our tasks finished.
         while count != 0:
             if isinstance(current_thread, WorkerThread):
@@ -262,13 +265,15 @@ class Scheduler:
             task.done = True
 
             # If a task raised an exception, cancel the rest of the tasks and
-            # error out.
-            if task.exc is not None:
-                # Clear our queue of tasks.
+            # error out once those that are already running finished.
+            if error is None and task.exc is not None:
+                error = task.exc
+
                 for t in tasks:
                     t.done = True
 
-                raise task.exc
+            if error is not None:
+                continue
 
             # Otherwise, add it to our results.
             results.append(task)
@@ -281,6 +286,9 @@ class Scheduler:
                     child.running = True
                     self.__ready_queue.put((done_queue, child))
 
+        if error is not None:
+            raise error
+
         # Check if we ran all of the tasks.
         if len(results) != len(tasks):
             # Uh oh, we must have a mutually dependent task. Figure out all the
@@ -390,7 +398,9 @@ class WorkerThread(threading.Thread):
 
             done_queue, task = queue_task
             try:
-                task.run()
+                # Don't run the tasks that have been cancelled.
+                if not task.done:
+                    task.run()
             finally:
                 done_queue.put(task)
         finally:
-- 
2.43.0


From 5af6093c5a9a8c3e13219d8cc4f70f649ef9bbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:01 +0000
Subject: [PATCH 22/78] fix: name the members of longer dependency loops

Only pairs of sources that depend on each other were named in the error, so
its message was empty for all other loops.
---
 lib/fbuild/sched.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index f7a5625..af69103 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -291,17 +291,26 @@ class Scheduler:
 
         # Check if we ran all of the tasks.
         if len(results) != len(tasks):
-            # Uh oh, we must have a mutually dependent task. Figure out all the
-            # dependencies and error out.
+            # Uh oh, we must have mutually dependent tasks. Figure out all the
+            # tasks that depend on themselves, possibly through others, and
+            # error out.
+            def find_dependencies(task):
+                found = set()
+                pending = [task]
+                while pending:
+                    for dep in pending.pop().dependencies:
+                        if dep not in found:
+                            found.add(dep)
+                            pending.append(dep)
+                return found
+
+            dependencies = {task: find_dependencies(task) for task in tasks}
             recursive_srcs = set()
 
-            for task in tasks:
-                if task.done:
-                    continue
-
-                for dep in children[task]:
-                    if task in dep.dependencies and dep in task.dependencies:
-                        recursive_srcs.add(frozenset((task.src, dep.src)))
+            for task, deps in dependencies.items():
+                if task in deps:
+                    recursive_srcs.add(frozenset(dep.src for dep in deps
+                        if task in dependencies[dep]))
 
             raise DependencyLoop(recursive_srcs)
 
-- 
2.43.0


From 2a965687c2d0ecf9f7e3989600e999f6140ca4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 23/78] fix: record who called a cached function with the call,
 not with the database

The scheduler's threads shared one call stack, so when the calls of two
threads overlapped, a function was recorded as a dependent of the wrong
caller and changes to it were not noticed by the right one.
---
 lib/fbuild/db/database.py | 22 +++++++++++++++-------
 lib/fbuild/sched.py       |  7 ++++++-
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 0ffa75d..bbb4555 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -1,3 +1,4 @@
+import contextvars
 import hashlib
 import itertools
 import pprint
@@ -21,12 +22,15 @@ class Database:
 
     _FUN_DIGESTS = {}
 
+    # The dependents of the function that's currently being run. The functions
+    # can run in more than one thread, so each needs to know who called it.
+    _callframe = contextvars.ContextVar('fbuild.db.callframe', default=None)
+
     def __init__(self, ctx, *, engine, explain=False):
         def handle_rpc(method, *args, **kwargs):
             return method(*args, **kwargs)
 
         self._ctx = ctx
-        self._callstack = []
         self._explain = explain
         self._connected = False
 
@@ -94,10 +98,11 @@ class Database:
         else:
             outer_function = function
 
-        # If there is a call stack, then this function is a dependent of the
-        # parent.
-        if self._callstack:
-            self._callstack[-1].append(fun_name)
+        # If we were called by another function, then this function is a
+        # dependent of the parent.
+        parent_dependents = self._callframe.get()
+        if parent_dependents is not None:
+            parent_dependents.append(fun_name)
 
         # Get the function digest.
         fun_digest = self.get_function_digest_from_map(fun_name)
@@ -173,7 +178,8 @@ class Database:
                 for dst in dirty_dsts:
                     self._ctx.logger.log('\t%s' % dst)
 
-        self._callstack.append([])
+        fun_dependents = []
+        token = self._callframe.set(fun_dependents)
 
         # Clear external srcs and dsts since they'll be recomputed inside
         # the function.
@@ -185,7 +191,9 @@ class Database:
             call_result = outer_function(*args, **kwargs)
         finally:
             # Don't leave our frame behind if the function failed.
-            fun_dependents = tuple(self._callstack.pop())
+            self._callframe.reset(token)
+
+        fun_dependents = tuple(fun_dependents)
 
         # Make sure the result is not a generator.
         assert not fbuild.inspect.isgenerator(call_result), \
diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index af69103..45764e0 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -1,5 +1,6 @@
 import collections
 import contextlib
+import contextvars
 import io
 import operator
 import queue
@@ -433,6 +434,10 @@ class Task:
         self.dependencies = []
         self.exc = None
 
+        # Run the function as a part of whatever asked for it, no matter which
+        # thread ends up doing so.
+        self.context = contextvars.copy_context()
+
     def can_run(self):
         """Returns True if all of this task's dependencies are done. Otherwise
         return False."""
@@ -449,6 +454,6 @@ class Task:
         """Run the task's function."""
 
         try:
-            self.result = self.function(self.src)
+            self.result = self.context.run(self.function, self.src)
         except Exception as e:
             self.exc = e
-- 
2.43.0


From 2ff8495c94f1d00af9b8ade0af7aeb0fafdae40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 24/78] fix: match whole names, also when they contain newlines

'$' also matches in front of a newline at the end of the name, and '.' does
not match newlines, so that '*' did not match everything.
---
 lib/fbuild/fnmatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/fnmatch.py b/lib/fbuild/fnmatch.py
index 1947bc4..a8da2c4 100644
--- a/lib/fbuild/fnmatch.py
+++ b/lib/fbuild/fnmatch.py
@@ -85,7 +85,7 @@ def translate(pat):
     There is no way to quote meta-characters.
     """
 
-    return _translate(0, pat, '')[2] + '$'
+    return r'(?s:%s)\Z' % _translate(0, pat, '')[2]
 
 def _translate(i, pat, end):
     res = ''
-- 
2.43.0


From 60fa608ccfba79d81add4347986984e7995fb1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 25/78] fix: count only positional parameters when checking
 positional arguments

f(1, k=2) is no valid call of def f(*, k), but was accepted, because the
keyword-only parameters were counted too.
---
 lib/fbuild/functools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/functools.py b/lib/fbuild/functools.py
index e22d64a..273e2c6 100644
--- a/lib/fbuild/functools.py
+++ b/lib/fbuild/functools.py
@@ -121,15 +121,15 @@ def normalize_args(function, args, kwargs):
     fn_totalargs = fn_argcount + fn_kwargcount
 
     # Error out if we specified too many arguments and we aren't taking varargs
-    if len(args) > fn_totalargs and not varargs:
+    if len(args) > fn_argcount and not varargs:
         raise TypeError(
             '%s.%s() takes %s %d %spositional argument%s (%d given)' % (
                 function.__module__,
                 function.__name__,
                 'at most' if defcount else 'exactly',
-                fn_totalargs,
+                fn_argcount,
                 '' if fn_kwargcount else 'non-keyword ',
-                '' if fn_totalargs == 1 else 's',
+                '' if fn_argcount == 1 else 's',
                 len(args)))
 
     new_args = list(args)
-- 
2.43.0


From be7684b47488dd469aaf2c2cdcfd63b6af1fad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:16 +0000
Subject: [PATCH 26/78] fix: don't report what is no directory for 'name/**'

glob('name/**') returned 'name/' also if name was a file or didn't exist.
---
 lib/fbuild/glob.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/glob.py b/lib/fbuild/glob.py
index b0c8281..453bff6 100644
--- a/lib/fbuild/glob.py
+++ b/lib/fbuild/glob.py
@@ -108,7 +108,8 @@ def glob0(dirname, basename):
 
 def glob2(dirname, pattern):
     assert _isrecursive(pattern)
-    yield pattern[:0]
+    if not dirname or os.path.isdir(dirname):
+        yield pattern[:0]
     for item in _rlistdir(dirname):
         yield item
 
-- 
2.43.0


From b1cadf7dccbbc7dfbde96919842e91d73bfdbae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:16 +0000
Subject: [PATCH 27/78] fix: pass the exclude argument of globall on to nested
 patterns

---
 lib/fbuild/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/path.py b/lib/fbuild/path.py
index 9fa5b12..ea8ce55 100644
--- a/lib/fbuild/path.py
+++ b/lib/fbuild/path.py
@@ -528,7 +528,7 @@ class Path(str):
             if \
                     not isinstance(pattern, str) and \
                     isinstance(pattern, collections.Iterable):
-                paths = Path.igloball(*pattern)
+                paths = Path.igloball(*pattern, **kwargs)
             else:
                 paths = Path.glob(pattern, **kwargs)
 
-- 
2.43.0


From b5944c9ede7ee65e720d5f9c61aecaff96e6df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 28/78] fix: set the permissions of the installed file, not of
 its source

---
 lib/fbuild/install.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/install.py b/lib/fbuild/install.py
index 003c3dd..30c2cad 100644
--- a/lib/fbuild/install.py
+++ b/lib/fbuild/install.py
@@ -27,8 +27,8 @@ class LocalCommander:
             os.symlink(file.readlink(), target)
         else:
             file.copy(target)
-        if perms is not None:
-            file.chmod(perms)
+            if perms is not None:
+                target.chmod(perms)
 
     def close(self): pass
 
-- 
2.43.0


From ef1d3bd920dfc18400b7872b337a4cfd738c4e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 29/78] fix: replace a dangling link when installing a link

---
 lib/fbuild/install.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/install.py b/lib/fbuild/install.py
index 30c2cad..423a061 100644
--- a/lib/fbuild/install.py
+++ b/lib/fbuild/install.py
@@ -22,7 +22,7 @@ class LocalCommander:
 
         if file.islink():
             # Assume the user knows what they're doing, and just copy the link itself.
-            if target.exists():
+            if target.lexists():
                 target.remove()
             os.symlink(file.readlink(), target)
         else:
-- 
2.43.0


From 0541278c22a755583dd60953dcaf43fca7a9d28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 30/78] fix: install into the destdir however many slashes a
 directory starts with

---
 lib/fbuild/context.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/context.py b/lib/fbuild/context.py
index 91b7615..4d44014 100644
--- a/lib/fbuild/context.py
+++ b/lib/fbuild/context.py
@@ -268,10 +268,9 @@ class Context:
         prefix = Path(self.install_prefix)
 
         if subdir.startswith('/'):
-            target_root = destdir / subdir[1:]
+            target_root = destdir / subdir.lstrip('/')
         else:
-            if prefix.startswith('/'):
-                prefix = prefix[1:]
+            prefix = prefix.lstrip('/')
             target_root = destdir / prefix / subdir
 
         # Generate the target path.
-- 
2.43.0


From 2671e4535bf933e75294c448e9032396e4a19192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 31/78] fix: 'fbuild configure install' configures before it
 builds

---
 lib/fbuild/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/main.py b/lib/fbuild/main.py
index 2408145..3669c19 100644
--- a/lib/fbuild/main.py
+++ b/lib/fbuild/main.py
@@ -106,7 +106,7 @@ def build(ctx):
         if targets[-1] != 'install':
             raise fbuild.Error('install must be last target')
         if not set(targets) - {'configure', 'install'}:
-            targets.insert(targets.index('install')-1, 'build')
+            targets.insert(targets.index('install'), 'build')
 
     # Step through each target and execute it.
     for target_name in targets:
-- 
2.43.0


From 01bff529514552708a92b523ad5734a601c74305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 32/78] fix: call os.removedirs in Path.removedirs

---
 lib/fbuild/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/path.py b/lib/fbuild/path.py
index ea8ce55..969c74f 100644
--- a/lib/fbuild/path.py
+++ b/lib/fbuild/path.py
@@ -339,7 +339,7 @@ class Path(str):
         return os.remove(self)
 
     def removedirs(self):
-        return removedirs(self)
+        return os.removedirs(self)
 
     def removeroot(self, root):
         """Remove the root of the path with "root", unless it doesn't already
-- 
2.43.0


From ea0b4e93357857abee2b76fc79d49e9a3a661f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 33/78] fix: buffer every line that is logged from a thread,
 not only the first

The buffer of a log_from_thread scope was removed with the first flush, after
which the pieces of a line were written one by one, without the lock, mixed with
those of other threads; and the end of the scope flushed the scope around it.
---
 lib/fbuild/console.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/console.py b/lib/fbuild/console.py
index e7c475d..c1d4582 100644
--- a/lib/fbuild/console.py
+++ b/lib/fbuild/console.py
@@ -126,6 +126,7 @@ class Log:
             yield
         finally:
             self.flush()
+            self._thread_stack.pop()
 
     def write(self, msg, *, buffer=True, **kwargs):
         if not buffer or self._threadcount == 1:
@@ -137,7 +138,8 @@ class Log:
                 if msg.endswith('\n'):
                     self.flush()
             else:
-                self._write(msg, **kwargs)
+                with self._lock:
+                    self._write(msg, **kwargs)
 
     def _write(self, msg, color=None, verbose=0):
         # make sure message is a string
@@ -153,7 +155,9 @@ class Log:
 
     def flush(self):
         if self._thread_stack:
-            msgs = self._thread_stack.pop()
+            # Keep the entry, as there may be more to log from this scope.
+            msgs = self._thread_stack[-1][:]
+            del self._thread_stack[-1][:]
             with self._lock:
                 for msg, kwargs in msgs:
                     self._write(msg, **kwargs)
-- 
2.43.0


From b59e0bd671ed7c92edd30d5c7b88b19f4aa679bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 34/78] fix: add to sets in platform options

Sets have no +=, so that options like 'x+': {...} raised a TypeError.
---
 lib/fbuild/builders/platform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/platform.py b/lib/fbuild/builders/platform.py
index 41cff87..dcd4b0c 100644
--- a/lib/fbuild/builders/platform.py
+++ b/lib/fbuild/builders/platform.py
@@ -207,7 +207,10 @@ def parse_platform_options(ctx, platform, platform_options, kwargs):
                         value = type(modifier)()
 
                     if operation == '+':
-                        value += modifier
+                        if isinstance(value, set):
+                            value |= set(modifier)
+                        else:
+                            value += modifier
                     elif operation == '-':
                         filtered = (x for x in value if x not in modifier)
 
-- 
2.43.0


From d2e7efa9ea0ad916d5afc9f38e2592a7dc71007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 35/78] fix: don't change the caller's values with platform
 options

'flags+' appended to the list that was passed to the builder's method, or to the
one of an earlier option, so that the same call had other arguments the next
time.
---
 lib/fbuild/builders/platform.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/platform.py b/lib/fbuild/builders/platform.py
index dcd4b0c..700611d 100644
--- a/lib/fbuild/builders/platform.py
+++ b/lib/fbuild/builders/platform.py
@@ -223,6 +223,9 @@ def parse_platform_options(ctx, platform, platform_options, kwargs):
 
                     kwargs[key] = value
                 else:
+                    # Later options may add to the value in place.
+                    if isinstance(modifier, (list, set)):
+                        modifier = modifier.copy()
                     kwargs[key] = modifier
 
 
@@ -245,8 +248,14 @@ def auto_platform_options(pass_platform=False):
                 ctx = args[0]
 
             if ctx is not None:
+                platform_options = kw.pop('platform_options', [])
+                if platform_options:
+                    # Leave the caller's values alone.
+                    for key, value in kw.items():
+                        if isinstance(value, (list, set)):
+                            kw[key] = value.copy()
                 parse_platform_options(ctx, kw.get('platform', None),
-                                       kw.pop('platform_options', []), kw)
+                                       platform_options, kw)
             if not pass_platform:
                 kw.pop('platform', None)
             return inner(*args, **kw)
-- 
2.43.0


From 5714887c0304a70ba9ed672a3a9b63225f1583c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 36/78] fix: replace a link when installing a file, not the
 file it refers to

---
 lib/fbuild/install.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/fbuild/install.py b/lib/fbuild/install.py
index 423a061..d46ed30 100644
--- a/lib/fbuild/install.py
+++ b/lib/fbuild/install.py
@@ -26,6 +26,9 @@ class LocalCommander:
                 target.remove()
             os.symlink(file.readlink(), target)
         else:
+            # Replace a link itself, and not the file it refers to.
+            if target.islink():
+                target.remove()
             file.copy(target)
             if perms is not None:
                 target.chmod(perms)
-- 
2.43.0


From b935bcb890e1b48bb34c9e8dae43e3afff9d97b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 37/78] fix: don't keep old members in static libraries

---
 lib/fbuild/builders/c/gcc/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 5638aab..2dd082f 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -67,6 +67,11 @@ class Ar(fbuild.db.PersistentObject):
 
         srcs = list(Path.globall(srcs))
 
+        # ar only adds to an archive that exists, so start over. Otherwise the
+        # members that aren't sources any more would stay.
+        if dst.exists() and dst not in srcs:
+            dst.remove()
+
         cmd = [self.exe]
         cmd.extend(self.flags)
         cmd.extend(flags)
-- 
2.43.0


From f43c33617bf95e29cdfec7c718aec2b7357acd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 38/78] fix: understand escaped file names in the dependencies
 from gcc

---
 lib/fbuild/builders/c/gcc/__init__.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 2dd082f..3457679 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -457,17 +457,26 @@ class Builder(fbuild.builders.c.Builder):
                 stdout = f.read().replace(b'\\\n', b'')
 
         # Parse the output and return the module dependencies.
-        m = re.match(b'\s*\S+:(?: (.*))?$', stdout)
+        m = re.match(br'\s*(?:[^\s\\]|\\.)+:(?: (.*))?$', stdout)
         if not m:
             raise fbuild.ExecutionError('unable to understand %r' % stdout)
 
         s = m.group(1)
         if s is not None:
-            deps = s.decode().split()
+            deps = [self._unescape(dep)
+                for dep in re.findall(r'(?:[^\s\\]|\\.)+', s.decode())]
             self.ctx.db.add_external_dependencies_to_call(srcs=deps)
 
         return obj
 
+    @staticmethod
+    def _unescape(dep):
+        """Return the file name gcc wrote to a makefile as I{dep}."""
+        # Backslashes are only doubled if they're before an escaped space.
+        dep = re.sub(r'(\\*)\\([ \t])',
+            lambda m: m.group(1)[:len(m.group(1)) // 2] + m.group(2), dep)
+        return dep.replace('\\#', '#').replace('$$', '$')
+
     def uncached_compile(self, *args, **kwargs):
         """Compile a c file without caching the results.  This is needed when
         compiling temporary files."""
-- 
2.43.0


From 846909e5e4e3cdf948eb043485c89a40e9e6f3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 39/78] fix: understand escaped file names in the output of
 ocamldep

---
 lib/fbuild/builders/ocaml/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 8f72bff..91010d9 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -54,7 +54,7 @@ class Ocamldep(fbuild.db.PersistentObject):
             stdout_quieter=1)
 
         # Parse the output and return the module dependencies.
-        m = re.match(b'\S+:(?: (.*))?$', stdout.strip())
+        m = re.match(br'(?:[^\s\\]|\\.)+:(?: (.*))?$', stdout.strip())
         if not m:
             raise fbuild.ExecutionError('unable to understand %r' % stdout)
 
-- 
2.43.0


From bb905a4b033b2e758ae03a5399ff94a2bde51e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 40/78] fix: copy_regex copies files below srcdir, whatever it
 is called

Directories that match src_pattern made copy_regex fail, a srcdir that ends
with a slash cut the first character of the names (and could copy outside of
dstdir), and a dstdir inside of srcdir was copied into itself without end.
---
 lib/fbuild/builders/file.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/file.py b/lib/fbuild/builders/file.py
index 1e963ca..464f60f 100644
--- a/lib/fbuild/builders/file.py
+++ b/lib/fbuild/builders/file.py
@@ -61,7 +61,8 @@ def copy_regex(ctx, *, srcdir, dstdir, src_pattern, dst_pattern,
 
     srcs = []
     dsts = []
-    for src in srcdir.find(include_dirs=include_dirs):
+    # The copies may end up inside of srcdir, so find everything first.
+    for src in list(srcdir.find(include_dirs=include_dirs)):
         # Filter out any files we're ignoring.
         if exclude_pattern is not None and re.search(exclude_pattern, src):
             continue
@@ -69,10 +70,16 @@ def copy_regex(ctx, *, srcdir, dstdir, src_pattern, dst_pattern,
         dst, nsub = re.subn(
             src_pattern,
             dst_pattern,
-            src[len(srcdir + os.sep):])
+            src.relpath(srcdir))
 
         if nsub > 0:
             dst = dstdir / Path(dst)
+
+            # Directories only need to exist.
+            if src.isdir():
+                dst.makedirs()
+                continue
+
             ctx.logger.check(' * copy', '%s -> %s' % (src, dst), color='yellow')
 
             dst.parent.makedirs()
-- 
2.43.0


From 7c3391a2dc185a5cb7e2ec2c258bc9996397087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 41/78] fix: call decorated cached functions

A cached function that is decorated with fbuild.functools.wraps is no bound
method, so calling it raised AttributeError.
---
 lib/fbuild/db/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index bbb4555..1b2a99e 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -94,7 +94,7 @@ class Database:
         if hasattr(outer_function, '__fbuild_wrapped__'):
             kwargs['__FBUILD_INNER'] = function
             # XXX: This is a hack to prevent a duplicated self!
-            outer_function = outer_function.__func__
+            outer_function = getattr(outer_function, '__func__', outer_function)
         else:
             outer_function = function
 
-- 
2.43.0


From 1168b489870b7824a6be93660d2b6a20cd2e637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 42/78] fix: find the version of compilers whose package or
 vendor is several words

---
 lib/fbuild/builders/c/clang/__init__.py | 3 ++-
 lib/fbuild/builders/c/gcc/__init__.py   | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/c/clang/__init__.py b/lib/fbuild/builders/c/clang/__init__.py
index 51c8587..084af75 100644
--- a/lib/fbuild/builders/c/clang/__init__.py
+++ b/lib/fbuild/builders/c/clang/__init__.py
@@ -10,7 +10,8 @@ class Clang(fbuild.builders.c.gcc.Gcc):
 
         stdout, stderr = self.ctx.execute((self.exe, '--version'), quieter=1)
 
-        m = re.match(
+        # Vendors put their names in front.
+        m = re.search(
             r'(?:Apple clang .* \(based on LLVM (\S+)\))'
             r'|'
             r'(?:clang version (\S+))', stdout.decode())
diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 3457679..6dec4d6 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -318,7 +318,11 @@ class Gcc(fbuild.db.PersistentObject):
         """Return the version of the gcc executable."""
 
         stdout, stderr = self.ctx.execute((self.exe, '--version'), quieter=1)
-        return stdout.decode().split('\n')[0].split(' ')[2]
+        stdout = stdout.decode()
+
+        # The version comes after the package, which may be several words.
+        m = re.match(r'\S+ \([^)]*\) (\S+)', stdout)
+        return m.group(1) if m else stdout.split('\n')[0].split(' ')[2]
 
     def check_flags(self, flags):
         if flags:
-- 
2.43.0


From 82dff1f55937b918c82b961b22093e95012de566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 43/78] fix: a package without flags has no flags

---
 lib/fbuild/builders/pkg_config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/pkg_config.py b/lib/fbuild/builders/pkg_config.py
index b2129c9..c28e67f 100644
--- a/lib/fbuild/builders/pkg_config.py
+++ b/lib/fbuild/builders/pkg_config.py
@@ -30,11 +30,11 @@ class PkgConfig(fbuild.db.PersistentObject):
     def cflags(self, components=(), *args, **kwargs):
         """Return C compiler flags for files that use the given package."""
         return self(tuple(chain(('--cflags',), components)), *args, **kwargs).\
-            split(' ')
+            split()
 
     def libs(self, components=(), *args, **kwargs):
         """Return linker flags needed for linking against the given package."""
-        return self(tuple(chain(('--libs',), components)), *args, **kwargs).split(' ')
+        return self(tuple(chain(('--libs',), components)), *args, **kwargs).split()
 
     @fbuild.db.cachemethod
     def require_version(self, requires_version=None,
-- 
2.43.0


From 8e2c1ae55610b23bb70f287b7db0f03ef75b0c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 44/78] fix: guess a shared C++ builder when asked for one

---
 lib/fbuild/builders/cxx/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/cxx/__init__.py b/lib/fbuild/builders/cxx/__init__.py
index 854e812..e4e309e 100644
--- a/lib/fbuild/builders/cxx/__init__.py
+++ b/lib/fbuild/builders/cxx/__init__.py
@@ -18,7 +18,7 @@ guess = fbuild.builders.c.Guesser('c++', {'msvc++', 'g++', 'clang++', 'icpc'}, (
         ({'clang++'}, 'fbuild.builders.cxx.clangxx.static',
                       'fbuild.builders.cxx.clangxx.shared'),
         ({'g++'}, 'fbuild.builders.cxx.gxx.static',
-                  'fbuild.builders.cxx.gxx.static'),
+                  'fbuild.builders.cxx.gxx.shared'),
         ({'icpc'}, 'fbuild.builders.cxx.intelxx.static',
                    'fbuild.builders.cxx.intelxx.shared'),
     ))
-- 
2.43.0


From 38e4c49a6cc3cb3c2b7154fb1e363059bf6430ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 45/78] fix: make the avr builders

---
 lib/fbuild/builders/c/gcc/avr.py   |  2 +-
 lib/fbuild/builders/cxx/gxx/avr.py | 20 +++++++++-----------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/lib/fbuild/builders/c/gcc/avr.py b/lib/fbuild/builders/c/gcc/avr.py
index 1a0a576..ba5d613 100644
--- a/lib/fbuild/builders/c/gcc/avr.py
+++ b/lib/fbuild/builders/c/gcc/avr.py
@@ -32,7 +32,7 @@ def make_cc(ctx, exe=None, default_exes=['avr-gcc'], **kwargs):
 def static(*args, make_cc=make_cc, **kwargs):
     return fbuild.builders.c.gcc.static(*args,
         make_cc=make_cc,
-        make_lib_linker=fbuild.builders.ar.avr.Ar,
+        make_lib_linker=Ar,
         cross_compiler=True,
         **kwargs)
 
diff --git a/lib/fbuild/builders/cxx/gxx/avr.py b/lib/fbuild/builders/cxx/gxx/avr.py
index 7843657..5b00868 100644
--- a/lib/fbuild/builders/cxx/gxx/avr.py
+++ b/lib/fbuild/builders/cxx/gxx/avr.py
@@ -1,25 +1,23 @@
-import fbuild.builders.ar.avr
-import fbuild.builders.c.gcc
 import fbuild.builders.c.gcc.avr
+import fbuild.db
 
 # ------------------------------------------------------------------------------
 
-def make_gxx(exe=None, default_exes=['avr-g++'], **kwargs):
-    return fbuild.builders.c.gcc.avr.make_gcc(exe, default_exes, **kwargs)
+def make_gxx(ctx, exe=None, default_exes=['avr-g++'], **kwargs):
+    return fbuild.builders.c.gcc.avr.make_cc(ctx, exe, default_exes, **kwargs)
 
 # ------------------------------------------------------------------------------
 
 @fbuild.db.caches
-def static(*args, make_gcc=make_gcc, src_suffix='.cc', **kwargs):
-    return fbuild.builders.c.gcc.static(*args,
-        make_gcc=make_gcc,
-        make_lib_linker=fbuild.builders.ar.avr.Ar,
+def static(*args, make_gxx=make_gxx, src_suffix='.cc', **kwargs):
+    return fbuild.builders.c.gcc.avr.static(*args,
+        make_cc=make_gxx,
         src_suffix=src_suffix,
         **kwargs)
 
 @fbuild.db.caches
-def shared(*args, make_gcc=make_gcc, src_suffix='.cc', **kwargs):
-    return fbuild.builders.c.gcc.shared(*args,
-        make_gcc=make_gcc,
+def shared(*args, make_gxx=make_gxx, src_suffix='.cc', **kwargs):
+    return fbuild.builders.c.gcc.avr.shared(*args,
+        make_cc=make_gxx,
         src_suffix=src_suffix,
         **kwargs)
-- 
2.43.0


From 43723e1e8340ebd96f8cc690a029edb34c46a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 46/78] fix: guess leaves the platform it is given alone and
 reports unknown compilers

---
 lib/fbuild/builders/c/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/builders/c/__init__.py b/lib/fbuild/builders/c/__init__.py
index 70b18a6..8daad06 100644
--- a/lib/fbuild/builders/c/__init__.py
+++ b/lib/fbuild/builders/c/__init__.py
@@ -404,12 +404,13 @@ class Guesser:
         if exe is not None:
             tp = identify_compiler(ctx, exe)
             if tp is None:
-                raise fbuild.ConfigFailed('cannot identify exe given for %s' % name)
+                raise fbuild.ConfigFailed('cannot identify exe given for %s' %
+                    self.lang)
             # Grab only the compiler type pertaining to this guess call.
-            platform |= tp & self.compilers
+            platform = platform | (tp & self.compilers)
         else:
             # We're open to using all compilers.
-            platform |= self.compilers
+            platform = platform | self.compilers
 
         builders = {'static': static, 'shared': shared}
 
-- 
2.43.0


From e2dad31c35bc9f277e9981fc9d5e01541ebf106f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 47/78] fix: link again if a library that a library uses has
 changed

---
 lib/fbuild/builders/c/gcc/__init__.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 6dec4d6..a6aa571 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -232,6 +232,7 @@ class Gcc(fbuild.db.PersistentObject):
         # libraries listed in a particular order.  Libraries must appear left
         # of their dependencies in order to optimize linking.
         new_libs = []
+        other_libs = []
         def f(lib):
             if lib in new_libs:
                 return
@@ -248,6 +249,7 @@ class Gcc(fbuild.db.PersistentObject):
                 # In order to make linux happy, we'll recursively walk the
                 # dependencies first, then add the library.
                 for l in lib.libs:
+                    other_libs.append(l)
                     f(l)
 
             parent, lib = Path(lib).split()
@@ -261,7 +263,12 @@ class Gcc(fbuild.db.PersistentObject):
             if lib not in new_libs:
                 new_libs.append(lib)
 
-        for lib in chain(self.libs, libs):
+        for lib in self.libs:
+            if isinstance(lib, fbuild.builders.c.Library):
+                other_libs.append(lib)
+            f(lib)
+
+        for lib in libs:
             f(lib)
 
         # Finally, we need to reverse the list so it's in the proper order.
@@ -312,6 +319,11 @@ class Gcc(fbuild.db.PersistentObject):
             # Add ldlibs.
             cmd.extend(self.ldlibs+tuple(ldlibs))
 
+            # These aren't arguments of the call that links, but it has to be
+            # repeated if they change.
+            self.ctx.db.add_external_dependencies_to_call(
+                srcs=[str(lib) for lib in other_libs])
+
         return self.ctx.execute(cmd, msg2=msg2, **kwargs)
 
     def version(self):
-- 
2.43.0


From c77bfb7ec647449cdf4dadaf73099f0803a51a1e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 48/78] fix: run programs with the directories of indirect
 libraries

---
 lib/fbuild/builders/c/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/c/__init__.py b/lib/fbuild/builders/c/__init__.py
index 8daad06..06b9a1c 100644
--- a/lib/fbuild/builders/c/__init__.py
+++ b/lib/fbuild/builders/c/__init__.py
@@ -170,9 +170,19 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
     @fbuild.builders.platform.auto_platform_options()
     def run(self, cmd, *args, runtime_libpaths=[], **kwargs):
         """Executes a c executable."""
+        libpaths = []
+        def add(libs):
+            for lib in libs:
+                if lib.parent not in libpaths:
+                    libpaths.append(lib.parent)
+
+                # The libraries need what they were linked with.
+                add(getattr(lib, 'libs', ()))
+
         exe = cmd[0]
+        add(exe.libs)
         return self.ctx.execute(cmd, *args,
-            runtime_libpaths=runtime_libpaths + [l.parent for l in exe.libs],
+            runtime_libpaths=runtime_libpaths + libpaths,
             **kwargs)
 
 
-- 
2.43.0


From 3811f7269e2547be33521037649523d6aab72055 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 49/78] fix: compare functions and print structs that
 configuration tests find

---
 lib/fbuild/config/c/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/config/c/__init__.py b/lib/fbuild/config/c/__init__.py
index 53de6a0..76de303 100644
--- a/lib/fbuild/config/c/__init__.py
+++ b/lib/fbuild/config/c/__init__.py
@@ -25,7 +25,7 @@ class Function:
         return \
             type(self) is type(other) and \
             self.return_type == other.return_type and \
-            self.args == other.size
+            self.args == other.args
 
     def __hash__(self):
         return hash((self.__class__, self.return_type, self.args))
@@ -102,7 +102,7 @@ class Struct:
     def __repr__(self):
         return '%s(%s)' % (
             self.__class__.__name__,
-            ', ' + ', '.join(repr(m) for m in self.members) if members else '',
+            ', '.join(repr(m) for m in self.members),
         )
 
     def __eq__(self, other):
-- 
2.43.0


From 81f3788c4e77e3e33db9490d2662defa4370a1f1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 50/78] fix: repeat configuration tests if what they test has
 changed

---
 lib/fbuild/config/c/__init__.py | 17 +++++++++++++++++
 lib/fbuild/db/database.py       |  3 +++
 2 files changed, 20 insertions(+)

diff --git a/lib/fbuild/config/c/__init__.py b/lib/fbuild/config/c/__init__.py
index 76de303..58bdeca 100644
--- a/lib/fbuild/config/c/__init__.py
+++ b/lib/fbuild/config/c/__init__.py
@@ -132,6 +132,9 @@ class cacheproperty(fbuild.db.cacheproperty):
         """Register itself inside the class."""
 
         self.__name__ = key
+        if isinstance(self.method, AbstractFieldDescriptor):
+            # Classes of other modules may have the same name.
+            self.method.__module__ = cls.__module__
         cls.__field_names__.append(key)
         setattr(cls, key, self)
 
@@ -199,6 +202,20 @@ class AbstractFieldDescriptor:
         else:
             return self.process_stdout(instance, stdout)
 
+    def __fbuild_source__(self):
+        """Return a text that changes if the test changes."""
+        src = repr((self.__class__, sorted(
+            (key, value) for key, value in vars(self).items()
+            if key != '__fbuild_member_of__')))
+
+        # The header of the class is included in the test.
+        cls = getattr(self, '__fbuild_member_of__', None)
+        header = getattr(getattr(cls, 'header', None), 'method', None)
+        if isinstance(header, header_test) and header is not self:
+            src += header.__fbuild_source__()
+
+        return src
+
     def format_test(self, instance):
         raise NotImplementedError
 
diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 1b2a99e..1f3bea9 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -317,6 +317,9 @@ class Database:
                     except (TypeError, OSError):
                         # It's a builtin or it was defined interactively.
                         pass
+            elif hasattr(cls, '__fbuild_source__'):
+                # The function belongs to a functor, so digest its state too.
+                src += cls.__fbuild_source__()
 
             digest = hashlib.md5(src.encode()).hexdigest()
         else:
-- 
2.43.0


From 751a665d8b5f8942481e8dafe91125c1bc76bda8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 51/78] fix: check types whose names have two characters

---
 lib/fbuild/builders/c/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/builders/c/__init__.py b/lib/fbuild/builders/c/__init__.py
index 06b9a1c..dd0af9e 100644
--- a/lib/fbuild/builders/c/__init__.py
+++ b/lib/fbuild/builders/c/__init__.py
@@ -253,10 +253,10 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
     def check_types_exist(self, *types, **kwargs):
         items = []
         for name in types:
-            try:
-                name, statement = name
-            except ValueError:
+            if isinstance(name, str):
                 name, statement = name, '%s t;' % name
+            else:
+                name, statement = name
             items.append((name, statement))
 
         return self.check_statements(*items,
-- 
2.43.0


From 126df25edb80f9cd95b5e085447d916d07ec7d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 52/78] fix: make static libraries with the archiver that is
 given

static() ignored its ar argument, so that libraries were made with the ar
of this machine.
---
 lib/fbuild/builders/c/gcc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index a6aa571..2b1cab9 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -563,7 +563,7 @@ def static(ctx, exe=None, *args,
         compiler=make_compiler(ctx, cc,
             flags=list(chain(flags, compile_flags)),
             suffix=obj_suffix),
-        lib_linker=make_lib_linker(ctx,
+        lib_linker=make_lib_linker(ctx, *([ar] if ar else []),
             libs=libs,
             libpaths=libpaths,
             prefix=lib_prefix,
-- 
2.43.0


From 459c0c1bdaf81d3da6f5555187964480092df433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 53/78] fix: pass all class and source paths to java compilers

Every path was passed with an option of its own, of which the compilers only
use the last.
---
 lib/fbuild/builders/java.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/fbuild/builders/java.py b/lib/fbuild/builders/java.py
index 19700da..18af1c0 100644
--- a/lib/fbuild/builders/java.py
+++ b/lib/fbuild/builders/java.py
@@ -168,11 +168,14 @@ class AbstractCompiler(fbuild.db.PersistentObject):
         if target is not None:
             cmd.append('-target:' + str(target))
 
-        for classpath in chain(self.classpaths, classpaths):
-            cmd.extend(('-cp', classpath))
-
-        for sourcepath in chain(self.sourcepaths, sourcepaths):
-            cmd.extend(('-sourcepath', sourcepath))
+        # Only the last of repeated options counts.
+        classpaths = list(chain(self.classpaths, classpaths))
+        if classpaths:
+            cmd.extend(('-cp', os.pathsep.join(classpaths)))
+
+        sourcepaths = list(chain(self.sourcepaths, sourcepaths))
+        if sourcepaths:
+            cmd.extend(('-sourcepath', os.pathsep.join(sourcepaths)))
 
         cmd.extend(self.flags)
         cmd.extend(flags)
-- 
2.43.0


From aa29b3b249d50aff5a1d293f0a4948bef61abd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 54/78] fix: select the target of javac

javac rejects -target:8, which is how scalac spells it.
---
 lib/fbuild/builders/java.py  | 5 ++++-
 lib/fbuild/builders/scala.py | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/java.py b/lib/fbuild/builders/java.py
index 18af1c0..fd9f8b2 100644
--- a/lib/fbuild/builders/java.py
+++ b/lib/fbuild/builders/java.py
@@ -166,7 +166,7 @@ class AbstractCompiler(fbuild.db.PersistentObject):
 
         target = self.target if target is None else target
         if target is not None:
-            cmd.append('-target:' + str(target))
+            cmd.extend(self._target_flags(target))
 
         # Only the last of repeated options counts.
         classpaths = list(chain(self.classpaths, classpaths))
@@ -183,6 +183,9 @@ class AbstractCompiler(fbuild.db.PersistentObject):
 
         return self.ctx.execute(cmd, *args, **kwargs)
 
+    def _target_flags(self, target):
+        return ('-target', str(target))
+
     def check_flags(self, flags=[]):
         """Verify that we can run with these flags."""
 
diff --git a/lib/fbuild/builders/scala.py b/lib/fbuild/builders/scala.py
index 2746732..92e685d 100644
--- a/lib/fbuild/builders/scala.py
+++ b/lib/fbuild/builders/scala.py
@@ -29,6 +29,9 @@ class AbstractCompiler(fbuild.builders.java.AbstractCompiler):
 
         return super()._run(*args, flags=flags, **kwargs)
 
+    def _target_flags(self, target):
+        return ('-target:' + str(target),)
+
 # ------------------------------------------------------------------------------
 
 class Scala(AbstractCompiler):
-- 
2.43.0


From ba99f8f0e53abc734fc3e8d5077d195fc12a2171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 55/78] fix: name the temporary sources of java and scala after
 their language

They were called temp.class, which the compilers don't accept, so that
try_compile always failed.
---
 lib/fbuild/builders/java.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/java.py b/lib/fbuild/builders/java.py
index fd9f8b2..8037104 100644
--- a/lib/fbuild/builders/java.py
+++ b/lib/fbuild/builders/java.py
@@ -232,8 +232,8 @@ class Javac(AbstractCompiler):
 # ------------------------------------------------------------------------------
 
 class AbstractBuilder(fbuild.builders.AbstractLibLinker):
-    def __init__(self, ctx, *, jar='jar', java='java', **kwargs):
-        super().__init__(ctx, src_suffix='.class')
+    def __init__(self, ctx, *, src_suffix, jar='jar', java='java', **kwargs):
+        super().__init__(ctx, src_suffix=src_suffix)
 
         self.jar = fbuild.builders.java.Jar(ctx, jar)
         self.java = fbuild.builders.java.Java(ctx, java)
-- 
2.43.0


From 69edf5219248509b06eb429252bf2a184366f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 56/78] fix: compile java sources again if the libraries they
 use have changed

The libraries in the class path weren't dependencies of what was compiled.
---
 lib/fbuild/builders/java.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/java.py b/lib/fbuild/builders/java.py
index 8037104..6a49587 100644
--- a/lib/fbuild/builders/java.py
+++ b/lib/fbuild/builders/java.py
@@ -279,6 +279,12 @@ class AbstractBuilder(fbuild.builders.AbstractLibLinker):
                 if not line.startswith('['):
                     self.ctx.logger.write(line)
 
+        # What we found in the libraries is in the classes, so compile them again
+        # if the libraries change.
+        self.ctx.db.add_external_dependencies_to_call(srcs=[path
+            for path in chain(builder.classpaths, kwargs.get('classpaths', ()))
+            if Path(path).isfile()])
+
         # Log all the files we found
         self.ctx.logger.check(str(builder), '%s -> %s' % (src, ' '.join(dsts)),
             color='compile')
@@ -306,8 +312,18 @@ class AbstractBuilder(fbuild.builders.AbstractLibLinker):
     def build_objects(self, srcs:fbuild.db.SRCS, **kwargs) -> fbuild.db.DSTS:
         """Compile all the L{srcs} in parallel."""
         dsts = []
-        for d in self.ctx.scheduler.map(partial(self.compile, **kwargs), srcs):
-            dsts.extend(d)
+        src_deps = []
+        dst_deps = []
+        for o, s, d in self.ctx.scheduler.map(
+                partial(self.compile.call, **kwargs),
+                srcs):
+            dsts.extend(o)
+            src_deps.extend(s)
+            dst_deps.extend(d)
+
+        self.ctx.db.add_external_dependencies_to_call(
+            srcs=src_deps,
+            dsts=dst_deps)
 
         return dsts
 
-- 
2.43.0


From 8b8823a9e463fad654034902f23481726a0e0664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 57/78] fix: list the dependencies of objects more than once,
 and if they need each other

nm returned an iterator, which is empty when it was used once, as the result
is cached, and didn't end if two objects need each other.
---
 lib/fbuild/builders/nm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/nm.py b/lib/fbuild/builders/nm.py
index e7b911d..0c5f2e5 100644
--- a/lib/fbuild/builders/nm.py
+++ b/lib/fbuild/builders/nm.py
@@ -28,9 +28,12 @@ class Nm(fbuild.db.PersistentObject):
             undefined_symbols_lookup[obj] = undefined_symbols
 
         new_objs = []
+        visited = set()
         def f(obj):
-            if obj in new_objs:
+            # Objects may need each other.
+            if obj in visited:
                 return
+            visited.add(obj)
 
             for undefined_symbol in undefined_symbols_lookup[obj]:
                 try:
@@ -45,7 +48,7 @@ class Nm(fbuild.db.PersistentObject):
         for obj in objs:
             f(obj)
 
-        return reversed(new_objs)
+        return list(reversed(new_objs))
 
     def _run(self, obj:fbuild.db.SRC):
         obj = fbuild.path.Path(obj)
-- 
2.43.0


From cb0b8f23256d1839b99b3319c35d28271d426e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 58/78] fix: make the header of a parser again if it's lost

---
 lib/fbuild/builders/bison.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fbuild/builders/bison.py b/lib/fbuild/builders/bison.py
index fb3be33..27cce67 100644
--- a/lib/fbuild/builders/bison.py
+++ b/lib/fbuild/builders/bison.py
@@ -45,6 +45,11 @@ class Bison(fbuild.db.PersistentObject):
 
         self.ctx.execute(cmd, self.exe, '%s -> %s' % (src, dst), color='yellow')
 
+        if defines:
+            # bison made a header too.
+            self.ctx.db.add_external_dependencies_to_call(
+                dsts=[dst.replaceext(dst.ext.replace('c', 'h'))])
+
         return dst
 
     def __str__(self):
-- 
2.43.0


From 5d9ca7c159db2c744d7de551e37e3d92631cde4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:04 +0000
Subject: [PATCH 59/78] fix: build felix objects and run temporary felix
 programs

build_objects and tempfile_run used names that don't exist.
---
 lib/fbuild/builders/felix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/felix.py b/lib/fbuild/builders/felix.py
index b694701..2ccafbd 100644
--- a/lib/fbuild/builders/felix.py
+++ b/lib/fbuild/builders/felix.py
@@ -148,7 +148,7 @@ class Felix(fbuild.builders.AbstractCompiler):
 
     @fbuild.builders.platform.auto_platform_options()
     def build_objects(self, srcs, **kwargs):
-        return fbuild.scheduler.map(partial(self.compile, **kwargs), srcs)
+        return self.ctx.scheduler.map(partial(self.compile, **kwargs), srcs)
 
     @fbuild.builders.platform.auto_platform_options()
     def run(self, src, *args, **kwargs):
@@ -158,7 +158,7 @@ class Felix(fbuild.builders.AbstractCompiler):
     # --------------------------------------------------------------------------
 
     @fbuild.builders.platform.auto_platform_options()
-    def tempfile_run(self, code='', *, quieter=1, **kwargs):
+    def tempfile_run(self, code='', *, quieter=1, ckwargs={}, **kwargs):
         with self.tempfile(code) as src:
             exe = self.uncached_compile(src, quieter=quieter, **ckwargs)
             return self.run(exe, quieter=quieter, **kwargs)
-- 
2.43.0


From 9a3341315639115b0e9fa3590cd0c5c85462b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:04 +0000
Subject: [PATCH 60/78] fix: assemble llvm sources again if they have changed

The source and the output of llvm-as weren't known as such, so that it only
ran once.
---
 lib/fbuild/builders/llvm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/llvm.py b/lib/fbuild/builders/llvm.py
index 446d286..7a2c5b9 100644
--- a/lib/fbuild/builders/llvm.py
+++ b/lib/fbuild/builders/llvm.py
@@ -170,7 +170,10 @@ class Llvm_as(fbuild.db.PersistentObject):
         self.flags = flags
 
     @fbuild.db.cachemethod
-    def __call__(self, src, dst=None, *, pre_flags=(), flags=(), **kwargs):
+    def __call__(self, src:fbuild.db.SRC, dst=None, *,
+            pre_flags=(),
+            flags=(),
+            **kwargs) -> fbuild.db.DST:
         dst = fbuild.path.Path(dst or src).replaceext('.bc')
 
         cmd = [self.exe]
-- 
2.43.0


From 6a2c156c416dbb7bbfc18d504cb97939fb0538e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 61/78] fix: ask llvm-config for its object root

obj_root returned the source root.
---
 lib/fbuild/builders/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/llvm.py b/lib/fbuild/builders/llvm.py
index 7a2c5b9..e813c8a 100644
--- a/lib/fbuild/builders/llvm.py
+++ b/lib/fbuild/builders/llvm.py
@@ -40,7 +40,7 @@ class LlvmConfig(fbuild.db.PersistentObject):
 
     def obj_root(self, *args, **kwargs):
         """Return the object root used to build LLVM."""
-        return fbuild.path.Path(self(('--src-root',), *args, **kwargs))
+        return fbuild.path.Path(self(('--obj-root',), *args, **kwargs))
 
     def bindir(self, *args, **kwargs):
         """Return the directory containing the LLVM executables."""
-- 
2.43.0


From c3389aa931ce332b0bba581f80a9553118dee733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 62/78] fix: run temporary programs that have relative paths

They are run in their directory, where a relative path names something else.
---
 lib/fbuild/builders/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/__init__.py b/lib/fbuild/builders/__init__.py
index bec6bec..074adf7 100644
--- a/lib/fbuild/builders/__init__.py
+++ b/lib/fbuild/builders/__init__.py
@@ -320,7 +320,7 @@ class AbstractExeLinker(AbstractCompiler, AbstractRunner):
                 quieter=quieter,
                 ckwargs=ckwargs,
                 **lkwargs) as exe:
-            return self.ctx.execute([exe],
+            return self.ctx.execute([exe.abspath()],
                 quieter=quieter,
                 cwd=exe.parent,
                 **kwargs)
-- 
2.43.0


From a8d1e95934c46d65155254c03bc9897dee17360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 63/78] fix: only link programs with the libraries of ocaml
 builders

They were also put into libraries and packs, where programs that use them find
their modules twice.
---
 lib/fbuild/builders/ocaml/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 91010d9..97bb041 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -277,7 +277,7 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
             buildroot=None,
             **kwargs):
         buildroot = buildroot or self.ctx.buildroot
-        libs = tuple(chain(self.libs, external_libs, libs))
+        libs = tuple(chain(external_libs, libs))
 
         # we need to make sure libraries are built first before we compile
         # the sources
@@ -451,10 +451,12 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
         return self._uncached_link(dst + self.lib_suffix,
             pre_flags=tuple(chain(('-a',), pre_flags)), *args, **kwargs)
 
-    def uncached_link_exe(self, dst, *args, **kwargs):
+    def uncached_link_exe(self, dst, *args, external_libs=(), **kwargs):
         """Link compiled ocaml files into an executable without caching the
         results.  This is needed when linking temporary files."""
-        return self._uncached_link(dst + self.exe_suffix, *args, **kwargs)
+        return self._uncached_link(dst + self.exe_suffix, *args,
+            external_libs=tuple(chain(self.libs, external_libs)),
+            **kwargs)
 
     def _uncached_link(self, dst, srcs, *args, libs=(), **kwargs):
         """Actually link the sources."""
-- 
2.43.0


From c377a3be9a0a3e126d63dfd0698b3971fb56b6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 64/78] fix: pack the given objects, and in the given build
 root

---
 lib/fbuild/builders/ocaml/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 97bb041..474db31 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -541,10 +541,11 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
         for_pack = for_pack[0].upper() + for_pack[1:]
 
         objs = list(objs)
-        objs = self.build_objects(srcs,
+        objs.extend(self.build_objects(srcs,
             for_pack=for_pack,
             pre_flags=pre_flags,
-            **kwargs)
+            buildroot=buildroot,
+            **kwargs))
 
         # We need to filter out any .cmi files.
         objs = [obj for obj in objs if not obj.endswith('.cmi')]
@@ -555,6 +556,7 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
         dst = self._run(dst, objs,
             color='link',
             pre_flags=pre_flags,
+            buildroot=buildroot,
             **kwargs)
 
         self.ctx.db.add_external_dependencies_to_call(
-- 
2.43.0


From 906040ec385f0b7eff5e1c89dbc56e090d855aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 65/78] fix: pack native objects again if they change or are
 lost

---
 lib/fbuild/builders/ocaml/__init__.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 474db31..e0befad 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -559,12 +559,15 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
             buildroot=buildroot,
             **kwargs)
 
+        self._add_pack_dependencies(dst, objs)
+
+        return dst
+
+    def _add_pack_dependencies(self, dst, objs):
         self.ctx.db.add_external_dependencies_to_call(
             srcs=objs + [obj.replaceext('.cmi') for obj in objs],
             dsts=[dst, dst.replaceext('.cmi')])
 
-        return dst
-
     # --------------------------------------------------------------------------
 
     def build_lib(self, dst, srcs:fbuild.db.SRCS, *args,
@@ -801,6 +804,14 @@ class Ocamlopt(Builder):
         self.ctx.db.add_external_dependencies_to_call(
             dsts=(dst.replaceext(self.native_obj_suffix),))
 
+    def _add_pack_dependencies(self, dst, objs):
+        super()._add_pack_dependencies(dst, objs)
+
+        # The native objects of the sources are packed as well.
+        self.ctx.db.add_external_dependencies_to_call(
+            srcs=[obj.replaceext(self.native_obj_suffix) for obj in objs],
+            dsts=[dst.replaceext(self.native_obj_suffix)])
+
     def _add_link_dependencies(self, dst, srcs, includes, libs):
         super()._add_link_dependencies(dst, srcs, includes, libs)
 
-- 
2.43.0


From 12f62dcc9859ab72caf83865531caa2cf39a1f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 66/78] fix: compile single sources to bytecode and native code

---
 lib/fbuild/builders/ocaml/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index e0befad..5761d7e 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -948,16 +948,16 @@ class Ocaml(fbuild.builders.AbstractCompilerBuilder):
 
     # --------------------------------------------------------------------------
 
-    def _compile(self, bcompile, ncompile, *args, **kwargs):
+    def _compile(self, bcompile, ncompile, src, *args, **kwargs):
         """Actually compile the source using the bytecode and native
         compilers."""
-        bobj = bcompile(*args, **kwargs)
+        bobj = bcompile(src, *args, **kwargs)
 
         if src.endswith('.mli'):
             # We only need to generate the interface once.
             nobj = bobj
         else:
-            nobj = ncompile(*args, **kwargs)
+            nobj = ncompile(src, *args, **kwargs)
 
         return self.Tuple(bobj, nobj)
 
-- 
2.43.0


From ada52a099e59484d7d89af906341a40afef5d2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 67/78] fix: link ocaml objects without include directories

---
 lib/fbuild/builders/ocaml/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 5761d7e..b9742e9 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -426,7 +426,7 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
             libs=libs,
             **kwargs)
 
-    def _link(self, function, dst, srcs, *args, includes, libs, **kwargs):
+    def _link(self, function, dst, srcs, *args, includes=(), libs, **kwargs):
         dst = function(dst, srcs, *args,
             includes=includes,
             libs=libs,
-- 
2.43.0


From edc7d574a231d7eb9fe86d95571745786b02fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 68/78] fix: profile with the flags that are given

---
 lib/fbuild/builders/ocaml/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index b9742e9..a0ce1f3 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -701,7 +701,9 @@ class Ocamlcp(BytecodeBuilder):
         if profile_flags is None:
             profile_flags = self.profile_flags
 
-        return super()._run(*args, flags=tuple(flags) + profile_flags, **kwargs)
+        return super()._run(*args,
+            flags=tuple(chain(flags, profile_flags)),
+            **kwargs)
 
 # ------------------------------------------------------------------------------
 
@@ -772,7 +774,7 @@ class Ocamlopt(Builder):
             if profile_flags is None:
                 profile_flags = self.profile_flags
 
-            flags = tuple(chain(flags, self.profile_flags))
+            flags = tuple(chain(flags, profile_flags))
 
         return super()._run(*args, flags=flags, **kwargs)
 
-- 
2.43.0


From c19af048d47fb3e08a7ec3c76e645f07b2cb9d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 69/78] fix: find the directory of the libraries of ocamlfind

---
 lib/fbuild/builders/ocaml/ocamlfind.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fbuild/builders/ocaml/ocamlfind.py b/lib/fbuild/builders/ocaml/ocamlfind.py
index 53464a3..8b4b71b 100644
--- a/lib/fbuild/builders/ocaml/ocamlfind.py
+++ b/lib/fbuild/builders/ocaml/ocamlfind.py
@@ -4,6 +4,7 @@ from itertools import chain
 import fbuild.builders
 import fbuild.builders.ocaml as ocaml
 import fbuild.db
+from fbuild.path import Path
 
 # ------------------------------------------------------------------------------
 
-- 
2.43.0


From 1c2b5c9d39b623f093326c2d0d0c3fb8291a6ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 70/78] fix: accept tuples of packages and flags

---
 lib/fbuild/builders/ocaml/batteries.py | 8 ++++----
 lib/fbuild/builders/ocaml/ocamlfind.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/batteries.py b/lib/fbuild/builders/ocaml/batteries.py
index e85e651..ac854ff 100644
--- a/lib/fbuild/builders/ocaml/batteries.py
+++ b/lib/fbuild/builders/ocaml/batteries.py
@@ -4,7 +4,7 @@ import fbuild.builders.ocaml.ocamlfind as ocamlfind
 
 class Ocamldep(ocamlfind.Ocamldep):
     def __init__(self, *args, packages=[], **kwargs):
-        super().__init__(*args, packages=packages+['batteries'], **kwargs)
+        super().__init__(*args, packages=[*packages, 'batteries'], **kwargs)
 
 class Ocamlc(ocamlfind.Ocamlc):
     def __init__(self, *args,
@@ -13,7 +13,7 @@ class Ocamlc(ocamlfind.Ocamlc):
             **kwargs):
         super().__init__(*args,
             make_ocamldep=make_ocamldep,
-            packages=packages+['batteries'],
+            packages=[*packages, 'batteries'],
             **kwargs)
 
 class Ocamlcp(ocamlfind.Ocamlcp):
@@ -23,7 +23,7 @@ class Ocamlcp(ocamlfind.Ocamlcp):
             **kwargs):
         super().__init__(*args,
             make_ocamldep=make_ocamldep,
-            packages=packages+['batteries'],
+            packages=[*packages, 'batteries'],
             **kwargs)
 
 class Ocamlopt(ocamlfind.Ocamlopt):
@@ -35,7 +35,7 @@ class Ocamlopt(ocamlfind.Ocamlopt):
         super().__init__(*args,
             make_ocamldep=make_ocamldep,
             make_ocamlc=make_ocamlc,
-            packages=packages+['batteries'],
+            packages=[*packages, 'batteries'],
             **kwargs)
 
 class Ocaml(ocamlfind.Ocaml):
diff --git a/lib/fbuild/builders/ocaml/ocamlfind.py b/lib/fbuild/builders/ocaml/ocamlfind.py
index 8b4b71b..8ee2a90 100644
--- a/lib/fbuild/builders/ocaml/ocamlfind.py
+++ b/lib/fbuild/builders/ocaml/ocamlfind.py
@@ -27,7 +27,7 @@ class Ocamldep(ocaml.Ocamldep):
         # preflag.
         exe = fbuild.builders.find_program(ctx, [exe if exe else 'ocamlfind'])
         super().__init__(ctx, exe, *args,
-            pre_flags=[ocamlfind_cmd] + pre_flags,
+            pre_flags=[ocamlfind_cmd, *pre_flags],
             **kwargs)
 
     def modules(self, *args,
@@ -156,7 +156,7 @@ class Ocamlc(OcamlfindBuilderMixin, ocaml.Ocamlc):
         # preflag.
         exe = fbuild.builders.find_program(ctx, [exe if exe else 'ocamlfind'])
         super().__init__(ctx, exe, *args,
-            pre_flags=[ocamlfind_cmd] + pre_flags,
+            pre_flags=[ocamlfind_cmd, *pre_flags],
             make_ocamldep=partial(make_ocamldep,
                 packages=packages,
                 syntaxes=syntaxes,
@@ -187,7 +187,7 @@ class Ocamlcp(OcamlfindBuilderMixin, ocaml.Ocamlcp):
         # preflag.
         exe = fbuild.builders.find_program(ctx, [exe if exe else 'ocamlfind'])
         super().__init__(ctx, exe, *args,
-            pre_flags=[ocamlfind_cmd] + pre_flags,
+            pre_flags=[ocamlfind_cmd, *pre_flags],
             make_ocamldep=partial(make_ocamldep,
                 packages=packages,
                 syntaxes=syntaxes,
@@ -220,7 +220,7 @@ class Ocamlopt(OcamlfindBuilderMixin, ocaml.Ocamlopt):
         exe = fbuild.builders.find_program(ctx, [exe if exe else 'ocamlfind'])
 
         super().__init__(ctx, exe, *args,
-            pre_flags=[ocamlfind_cmd] + pre_flags,
+            pre_flags=[ocamlfind_cmd, *pre_flags],
             make_ocamldep=partial(make_ocamldep,
                 packages=packages,
                 syntaxes=syntaxes,
-- 
2.43.0


From 0cf05005e1504a86b6558d15c5684cae9551996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 71/78] fix: accept strings as ocaml sources

---
 lib/fbuild/builders/ocaml/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index a0ce1f3..d8f6129 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -370,6 +370,8 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
             **kwargs):
         """Compile an ocaml implementation or interface file without caching
         the results.  This is needed when compiling temporary files."""
+        src = Path(src)
+
         if src.endswith('.mli'):
             obj_suffix = '.cmi'
         else:
@@ -396,6 +398,8 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
             *args, **kwargs)
 
     def _add_compile_dependencies(self, dst, src, **kwargs):
+        src = Path(src)
+
         # If the .mli file doesn't exist, ocaml creates one from the .ml file
         if src.endswith('.ml') and not src.replaceext('.mli').exists():
             dsts = (dst.replaceext('.cmi'),)
@@ -1000,7 +1004,7 @@ class Ocamllex(fbuild.db.PersistentObject):
             flags=(),
             buildroot=None) -> fbuild.db.DST:
         buildroot = buildroot or self.ctx.buildroot
-        dst = src.replaceext('.ml').addroot(buildroot)
+        dst = Path(src).replaceext('.ml').addroot(buildroot)
         dst.parent.makedirs()
 
         cmd = [self.exe]
@@ -1037,6 +1041,7 @@ class Ocamlyacc(fbuild.db.PersistentObject):
             buildroot=None) -> fbuild.db.DSTS:
         buildroot = buildroot or self.ctx.buildroot
         # first, copy the src file into the buildroot
+        src = Path(src)
         src_buildroot = src.addroot(buildroot)
         dsts = (
             src_buildroot.replaceext('.ml'),
-- 
2.43.0


From 71d9d9192bb47aebce0d4a9bbf850529be8a28a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:06 +0000
Subject: [PATCH 72/78] fix: find the interfaces of objects in the build root
 that is given

---
 lib/fbuild/builders/ocaml/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index d8f6129..5d1166b 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -494,11 +494,11 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
             parent = src.parent
             if parent:
                 includes.add(parent)
-                includes.add(parent.addroot(self.ctx.buildroot))
+                includes.add(parent.addroot(buildroot))
             else:
                 # We're at the toplevel directory, so just add the buildroot to
                 # the includes.
-                includes.add(self.ctx.buildroot)
+                includes.add(buildroot)
 
         # Add additional source dependencies to the call.
         deps = set()
-- 
2.43.0


From 133989f02d9dc189340cfb2c9f6547581dd4eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 73/78] fix: compile ocaml sources again if packs they use have
 changed

---
 lib/fbuild/builders/ocaml/__init__.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 5d1166b..49d0e74 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -71,6 +71,9 @@ class Ocamldep(fbuild.db.PersistentObject):
         """Compute the source files this ocaml file depends on."""
         deps = []
 
+        if src.endswith('.cmi'):
+            return deps
+
         def f(module, include):
             # On case-insensitive but case-preserving filesystems, we need to
             # be careful on how we deal with finding OCaml dependencies. Since
@@ -111,6 +114,15 @@ class Ocamldep(fbuild.db.PersistentObject):
                     deps.append(include / path)
                 found = True
 
+            if not found and include is not None:
+                # There may be no source but only a compiled interface, such
+                # as that of a pack.
+                for name in module[0].lower() + module[1:], module:
+                    if name + '.cmi' in dirs:
+                        deps.append(include / name + '.cmi')
+                        found = True
+                        break
+
             return found
 
         modules = self.modules(src, **kwargs)
@@ -766,6 +778,13 @@ class Ocamlopt(Builder):
                     deps.add(dep)
                     f(dep)
 
+                    # If there's only a compiled interface, the implementation
+                    # can be inlined as well.
+                    if dep.endswith('.cmi'):
+                        cmx = dep.replaceext('.cmx')
+                        if cmx.exists():
+                            deps.add(cmx)
+
         f(src)
 
         return deps
-- 
2.43.0


From b462c621fbfb85c69f52eb254369df9892a1b6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 74/78] fix: compile interfaces with the includes of the native
 compiler

---
 lib/fbuild/builders/ocaml/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 49d0e74..5947961 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -735,12 +735,14 @@ class Ocamlopt(Builder):
             profile=False,
             profile_flags=('-p',),
             linker=None,
+            includes=(),
             **kwargs):
         # We need the bytecode compiler to compile .mli files.
         # Note we purposely don't pass the profile to ocamlc.
         self.ocamlc = ocamlc or make_ocamlc(ctx,
             ocamldep=ocamldep,
-            make_ocamldep=make_ocamldep)
+            make_ocamldep=make_ocamldep,
+            includes=tuple(includes))
 
         self.native_obj_suffix = \
             fbuild.builders.platform.obj_suffix(ctx, platform)
@@ -758,6 +760,7 @@ class Ocamlopt(Builder):
             lib_suffix=lib_suffix,
             ocamldep=ocamldep,
             make_ocamldep=make_ocamldep,
+            includes=includes,
             **kwargs)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 1488451be932272486bbcd9ee3f0b9a12c18e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:24 +0000
Subject: [PATCH 75/78] fix: compile java sources in the build root that is
 given

---
 lib/fbuild/builders/java.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fbuild/builders/java.py b/lib/fbuild/builders/java.py
index 6a49587..4147b40 100644
--- a/lib/fbuild/builders/java.py
+++ b/lib/fbuild/builders/java.py
@@ -260,6 +260,7 @@ class AbstractBuilder(fbuild.builders.AbstractLibLinker):
                 flags=list(chain(('-verbose',), flags)),
                 quieter=quieter,
                 stderr_quieter=1 if stderr_quieter == 0 else stderr_quieter,
+                buildroot=buildroot,
                 **kwargs)
         except fbuild.ExecutionError as e:
             if quieter == 0 and stderr_quieter == 0:
-- 
2.43.0


From 2ea61ac62e0fe7d0324907083246090113413a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:01 +0000
Subject: [PATCH 76/78] fix: find what scala scripts are compiled to in the
 build root

---
 lib/fbuild/builders/scala.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/builders/scala.py b/lib/fbuild/builders/scala.py
index 92e685d..ff43493 100644
--- a/lib/fbuild/builders/scala.py
+++ b/lib/fbuild/builders/scala.py
@@ -44,8 +44,6 @@ class Scala(AbstractCompiler):
         src = Path(src)
         buildroot = buildroot or self.ctx.buildroot
         src_buildroot = src.addroot(buildroot)
-        dst = src.replaceext('.jar')
-
         # We need to copy the src into the buildroot so we don't pollute our
         # tree.
         if src != src_buildroot:
@@ -53,6 +51,8 @@ class Scala(AbstractCompiler):
             src.copy(src_buildroot)
             src = src_buildroot
 
+        dst = src.replaceext('.jar')
+
         # Always save the compilation results.
         flags = list(flags)
         flags.append('-savecompiled')
@@ -98,7 +98,7 @@ class Builder(fbuild.builders.java.AbstractBuilder):
 
     def run_script(self, src, *args, **kwargs):
         """Run a scala script."""
-        return self.scala((src,), *args, **kwargs)
+        return self.scala(src, *args, **kwargs)
 
     def run_class(self, *args, classpaths=[], **kwargs):
         """Run a scala library."""
-- 
2.43.0


From 3b61a36fd859068063fe153f3eea77333870e458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:06 +0000
Subject: [PATCH 77/78] fix: make the directory of the log file

---
 lib/fbuild/context.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fbuild/context.py b/lib/fbuild/context.py
index 4d44014..bbffe81 100644
--- a/lib/fbuild/context.py
+++ b/lib/fbuild/context.py
@@ -69,6 +69,7 @@ class Context:
         self.buildroot.makedirs()
 
         # Load the logger options into the logger.
+        self.options.log_file.parent.makedirs()
         self.logger.file = open(self.options.log_file, 'w')
 
         # Make sure the state file directory exists.
-- 
2.43.0


From 5ab35f86bce405287766bfe64f48456b9722af19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:21 +0000
Subject: [PATCH 78/78] fix: llc and llvm-as use the flags they are made with

Llc and Llvm_as took flags, but only used those of calls.
---
 lib/fbuild/builders/llvm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/fbuild/builders/llvm.py b/lib/fbuild/builders/llvm.py
index e813c8a..74716b2 100644
--- a/lib/fbuild/builders/llvm.py
+++ b/lib/fbuild/builders/llvm.py
@@ -141,6 +141,7 @@ class Llc(fbuild.builders.AbstractCompiler):
         if filetype is not None:
             cmd.append('-filetype=' + filetype)
 
+        cmd.extend(self.flags)
         cmd.extend(flags)
         cmd.extend(args)
 
@@ -179,6 +180,7 @@ class Llvm_as(fbuild.db.PersistentObject):
         cmd = [self.exe]
         cmd.extend(pre_flags)
         cmd.extend(('-o', dst))
+        cmd.extend(self.flags)
         cmd.extend(flags)
         cmd.append(src)
 
-- 
2.43.0

