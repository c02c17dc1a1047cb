From 72c91d2358c6b0ad4323d3a82f799a78e8d87b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 01/74] fix: functions that call each other, and removed
 functions, as dependents

Checking whether a function is dirty follows its dependents.  The set of
functions already looked at was not handed on, so two functions that call each
other recursed for ever, and a dependent which does not exist anymore raised a
KeyError instead of making its users dirty.
---
 lib/fbuild/db/backend.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 099e6b4..e9d6b9f 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -127,15 +127,21 @@ class Backend:
             already_checked = set()
         already_checked.add(fun_name)
 
-        fun_digest = Database.get_function_digest_from_map(fun_name)
         fun_id, old_digest, fun_dependents = self.find_function(fun_name)
 
+        try:
+            fun_digest = Database.get_function_digest_from_map(fun_name)
+        except KeyError:
+            # The function does not exist anymore, so whatever used it has to
+            # be rerun.
+            return True, fun_id
+
         # Has the function changed?
         fun_dirty = old_digest is None or fun_digest != old_digest
         if not fun_dirty:
             # Have any of it's dependents changed?
             for dep in set(fun_dependents) - already_checked:
-                dep_dirty, _ = self.check_function(dep)
+                dep_dirty, _ = self.check_function(dep, already_checked)
                 if dep_dirty:
                     fun_dirty = True
                     break
-- 
2.43.0


From 41b3490a1d7492a1ac4dbd72f2af240048781282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 02/74] fix: sqlite: keep external dependencies when a file
 changes or is deleted

Deleting a file, which also happens when its content changed, deleted the fact
that calls had registered it as an external source or destination.  Those calls
then returned their old results.  Only forget the content instead.  Also tell
whether there was something to delete, so that --delete-file does not report
that the file is not cached.
---
 lib/fbuild/db/backend.py        |  9 +++------
 lib/fbuild/db/sqlite_backend.py | 20 ++++++++++----------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index e9d6b9f..dd9ebd9 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -306,14 +306,11 @@ class Backend:
             return False, file_id, file_mtime, digest
 
         if file_id is not None:
-            # Since the function changed, all of the calls that used this
-            # function are dirty.
+            # Since the file changed, all of the calls that used this file are
+            # dirty.
             self.delete_file(file_name)
 
-            # The file_id is now invalid.
-            file_id = None
-
-        # Now, add the file back to the database.
+        # Now, save the new content.
         file_id = self.save_file(file_id, file_name, file_mtime, digest)
 
         # Returns True since the file changed.
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 9e1a561..39908d0 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -509,21 +509,21 @@ class SqliteBackend(fbuild.db.backend.Backend):
 
         # Exit early if we got nothing returned.
         if not rows:
-            return
+            return False
 
         (file_id,), = rows
 
-        # And delete all of the related call files.
+        # And delete all of the related call files. The calls that registered
+        # the file keep depending on it, it's just that its content is unknown.
         self.cursor.execute(
             'DELETE FROM CallFile WHERE file_id=?',
             (file_id,))
+        file_existed = self.cursor.rowcount > 0
 
-        self.cursor.execute(
-            'DELETE FROM ExternalSrc WHERE file_id=?',
-            (file_id,))
-
-        self.cursor.execute(
-            'DELETE FROM ExternalDst WHERE file_id=?',
-            (file_id,))
+        self.cursor.execute('''
+            UPDATE File SET file_mtime=NULL, file_digest=NULL
+            WHERE file_id=? AND file_digest IS NOT NULL
+            ''', (file_id,))
+        file_existed |= self.cursor.rowcount > 0
 
-        self.cursor.execute('DELETE FROM File WHERE file_name=?', (file_name,))
+        return file_existed
-- 
2.43.0


From 8b8cecd5f99faee152f2402060343d1e99efbc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 03/74] fix: rerun a call whose registered source file was
 removed

The removal was ignored, so the old result was returned although a clean build
would not find the file.
---
 lib/fbuild/db/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index dd9ebd9..077478e 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -252,7 +252,8 @@ class Backend:
                 try:
                     d, file_id, file_digest = self.check_call_file(call_id, src)
                 except OSError:
-                    pass
+                    # The file is gone, which is a change too.
+                    external_digests.append((None, src, None))
                 else:
                     if d:
                         external_digests.append((file_id, src, file_digest))
-- 
2.43.0


From 9e0ce35c8aca6ba1f2872cdc6e8c32b3201cd3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 04/74] fix: invalidate all users of a changed function, and
 keep all calls of one that runs nested

A function is dirty when one of the functions it used changed.  As soon as the
first user had rerun and the new version had been saved, the other users
compared equal to it and returned their old results.  Delete what depends on a
function together with it.

Each finishing call replaced what had been saved since it started: the inner
calls of a recursive function were lost (pickle) or violated the unique
constraint (sqlite), and functions only used by later calls were never recorded
as dependents.  Look up what is there when the call is saved, and extend it.
---
 lib/fbuild/db/backend.py        | 51 +++++++++++++++++++++++++++------
 lib/fbuild/db/cache_backend.py  |  8 ++++++
 lib/fbuild/db/sqlite_backend.py | 10 +++++++
 3 files changed, 61 insertions(+), 8 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 077478e..8fdc64a 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -50,6 +50,16 @@ class Backend:
         # Check if the function changed.
         fun_dirty, fun_id = self.check_function(fun_name)
 
+        if fun_dirty and fun_id is not None:
+            # Since the function changed, delete out all the related data. The
+            # functions that depend on it are dirty too, but after the new
+            # version has been saved nothing would tell that anymore, so delete
+            # them as well.
+            self.delete_function_and_users(fun_name)
+
+            # The fun_id is now invalid.
+            fun_id = None
+
         # Check if this is a new call and get the index.
         if fun_dirty or fun_id is None:
             call_dirty = True
@@ -96,19 +106,25 @@ class Backend:
             external_dsts):
         """Saves the function call into the database."""
 
-        # Lock the db since we're updating data structures.
-        if fun_dirty:
-            # Since the function changed, delete out all the related data.
-            if fun_id is not None:
-                self.delete_function(fun_name)
+        # While the function ran, it may have been cached by another call, and
+        # this call may be using functions that the other calls did not. So look
+        # up what is there by now, and extend it.
+        fun_id, old_digest, old_dependents = self.find_function(fun_name)
+        if fun_id is None:
+            old_dependents = ()
 
-                # The fun_id is now invalid.
-                fun_id = None
+        dependents = list(old_dependents)
+        for dep in fun_dependents:
+            if dep not in dependents:
+                dependents.append(dep)
 
+        if fun_id is None or fun_digest != old_digest or \
+                len(dependents) != len(old_dependents):
             fun_id = self.save_function(fun_id, fun_name, fun_digest,
-                                        fun_dependents)
+                                        tuple(dependents))
 
         # Get the real call_id to use in the call files.
+        _, call_id, _ = self.find_call(fun_id, bound)
         call_id = self.save_call(call_id, fun_id, bound, result)
         self.save_call_files(call_id, call_file_digests)
 
@@ -154,6 +170,25 @@ class Backend:
         raise NotImplementedError
 
 
+    def find_users(self, fun_name):
+        """Returns the names of the functions that depend on the function."""
+        raise NotImplementedError
+
+
+    def delete_function_and_users(self, fun_name):
+        """Clear the function, and everything that directly or indirectly
+        depends on it, from the database."""
+
+        seen = {fun_name}
+        todo = [fun_name]
+        while todo:
+            name = todo.pop()
+            users = set(self.find_users(name)) - seen
+            seen.update(users)
+            todo.extend(users)
+            self.delete_function(name)
+
+
     def save_function(self, fun_id, fun_name, fun_digest, fun_dependents):
         """Insert or update the function's digest."""
         raise NotImplementedError
diff --git a/lib/fbuild/db/cache_backend.py b/lib/fbuild/db/cache_backend.py
index 6145abf..29d5eca 100644
--- a/lib/fbuild/db/cache_backend.py
+++ b/lib/fbuild/db/cache_backend.py
@@ -50,6 +50,14 @@ class CacheBackend(fbuild.db.backend.Backend):
         return fun_id, fun_digest, fun_dependents
 
 
+    def find_users(self, fun_name):
+        """Returns the names of the functions that depend on the function."""
+
+        return [name
+            for name, (fun_digest, fun_dependents) in self._functions.items()
+            if fun_name in fun_dependents]
+
+
     def save_function(self, fun_id, fun_name, fun_digest, fun_dependents):
         """Insert or update the function's digest."""
 
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 39908d0..faf0e45 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -161,6 +161,16 @@ class SqliteBackend(fbuild.db.backend.Backend):
             return fun_id, fun_digest, split_dependents
 
 
+    def find_users(self, fun_name):
+        """Returns the names of the functions that depend on the function."""
+
+        self.cursor.execute('SELECT fun_name,fun_dependents FROM Function')
+
+        return [name
+            for name, fun_dependents in self.cursor.fetchall()
+            if fun_name in fun_dependents.split('\0')]
+
+
     def save_function(self, fun_id, fun_name, fun_digest, fun_dependents):
         """Insert or update the function's digest."""
 
-- 
2.43.0


From ff2de10662e66615506fbb90221c93a563ea6b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 05/74] fix: attribute dependencies to the cached call that is
 being run

The call stack was one list for all threads, so calls made by scheduler tasks
ended up as dependents of whatever function another thread was running, and an
exception left its entry on the stack.  Dependencies registered from a task were
only found if the task happened to run on the thread of the call that created
it, and were also added to unrelated calls that thread was waiting in.  Keep the
call in a context variable, which tasks inherit from where they were created.
---
 lib/fbuild/db/database.py | 62 +++++++++++++++++++++++----------------
 lib/fbuild/sched.py       |  6 +++-
 2 files changed, 41 insertions(+), 27 deletions(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index cf635b0..dfbd795 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -1,3 +1,4 @@
+import contextvars
 import hashlib
 import itertools
 import pprint
@@ -16,6 +17,17 @@ import fbuild.db.sqlite_backend
 
 # ------------------------------------------------------------------------------
 
+class _ActiveCall:
+    """What a cached function that is being run has used so far."""
+
+    def __init__(self, parent):
+        self.parent = parent
+        self.dependents = []
+        self.external_srcs = set()
+        self.external_dsts = set()
+
+# ------------------------------------------------------------------------------
+
 class Database:
     """L{Database} persistently stores the results of argument calls."""
 
@@ -26,7 +38,9 @@ class Database:
             return method(*args, **kwargs)
 
         self._ctx = ctx
-        self._callstack = []
+        # The cached function that is being run. The scheduler hands it on to
+        # the tasks the function creates, which may run in other threads.
+        self._active_call = contextvars.ContextVar('active_call', default=None)
         self._explain = explain
         self._connected = False
 
@@ -94,10 +108,11 @@ class Database:
         else:
             outer_function = function
 
-        # If there is a call stack, then this function is a dependent of the
-        # parent.
-        if self._callstack:
-            self._callstack[-1].append(fun_name)
+        # If a cached function is being run, then this function is a dependent
+        # of it.
+        parent = self._active_call.get()
+        if parent is not None:
+            parent.dependents.append(fun_name)
 
         # Get the function digest.
         fun_digest = self.get_function_digest_from_map(fun_name)
@@ -173,16 +188,18 @@ class Database:
                 for dst in dirty_dsts:
                     self._ctx.logger.log('\t%s' % dst)
 
-        self._callstack.append([])
+        # The call was dirty, so recompute it, and with it the external srcs and
+        # dsts.
+        active_call = _ActiveCall(parent)
+        token = self._active_call.set(active_call)
+        try:
+            call_result = outer_function(*args, **kwargs)
+        finally:
+            self._active_call.reset(token)
 
-        # Clear external srcs and dsts since they'll be recomputed inside
-        # the function.
-        external_srcs = set()
-        external_dsts = set()
-
-        # The call was dirty, so recompute it.
-        call_result = outer_function(*args, **kwargs)
-        fun_dependents = tuple(self._callstack.pop())
+        fun_dependents = tuple(active_call.dependents)
+        external_srcs = active_call.external_srcs
+        external_dsts = active_call.external_dsts
 
         # Make sure the result is not a generator.
         assert not fbuild.inspect.isgenerator(call_result), \
@@ -316,17 +333,10 @@ class Database:
         a cached function and will error out if it is called from an
         uncached function."""
 
-        # Hack in additional dependencies
-        frame = fbuild.inspect.currentframe()
-
-        if frame is None:
-            return
-
-        frame = frame.f_back
+        active_call = self._active_call.get()
 
-        while frame:
-            if frame.f_code == self.call.__code__:
-                frame.f_locals['external_srcs'].update(srcs)
-                frame.f_locals['external_dsts'].update(dsts)
+        while active_call is not None:
+            active_call.external_srcs.update(srcs)
+            active_call.external_dsts.update(dsts)
 
-            frame = frame.f_back
+            active_call = active_call.parent
diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 35718c7..ffd1a5d 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -1,5 +1,6 @@
 import collections
 import contextlib
+import contextvars
 import io
 import operator
 import queue
@@ -394,6 +395,9 @@ class Task:
         self.done = False
         self.dependencies = []
         self.exc = None
+        # The task belongs to whatever created it, no matter which thread ends
+        # up running it.
+        self.context = contextvars.copy_context()
 
     def can_run(self):
         """Returns True if all of this task's dependencies are done. Otherwise
@@ -411,6 +415,6 @@ class Task:
         """Run the task's function."""
 
         try:
-            self.result = self.function(self.src)
+            self.result = self.context.run(self.function, self.src)
         except Exception as e:
             self.exc = e
-- 
2.43.0


From b20392fb6cc88a9c42d0f59efea8a6334d348531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 06/74] fix: recreate persistent objects when their constructor
 changes

The digest of a class was the source of PersistentMeta.__call_super__, which is
the same for all of them, so an object was taken from the database no matter
how its __init__ had changed.
---
 lib/fbuild/db/database.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index dfbd795..3ce86de 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -295,7 +295,18 @@ class Database:
     @staticmethod
     def _digest_function(function):
         """Compute the digest for a function or a function object."""
-        if fbuild.inspect.isroutine(function):
+        if function.__name__ == '__call_super__' and \
+                isinstance(function.__self__, fbuild.db.PersistentMeta):
+            # This constructs an object, so digest the constructors.
+            srcs = []
+            for cls in function.__self__.__mro__:
+                try:
+                    srcs.append(fbuild.inspect.getsource(vars(cls)['__init__']))
+                except (KeyError, TypeError, OSError):
+                    # There's no constructor, or it has no source.
+                    pass
+            digest = hashlib.md5('\0'.join(srcs).encode()).hexdigest()
+        elif fbuild.inspect.isroutine(function):
             # The function is a function, method, or lambda, so digest
             # the source. If the function is a builtin, we will raise
             # an exception.
-- 
2.43.0


From 072b263f56d0ec32308f100166ca0c5540db3736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 07/74] fix: sqlite: save all the registered destination files

A destination that did not exist raised an exception, and one that the call had
also registered as a source was not saved at all.
---
 lib/fbuild/db/sqlite_backend.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index faf0e45..24dabb0 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -451,17 +451,15 @@ class SqliteBackend(fbuild.db.backend.Backend):
         # ----------------------------------------------------------------------
 
         if dsts:
-            # We don't need to save a list here because we're only using it
-            # once.
-            # XXX: There's a python bug where you can't pass a generator that
-            # itself inserts into sqlite, so we need to force the generator.
-            dst_call_files = [self.check_call_file(call_id, dst)
-                for dst in dsts]
-
+            # Only the names matter, the files do not even need to exist.
             self.cursor.executemany(
-                'INSERT INTO ExternalDst (call_id,file_id) VALUES (?,?)',
-                ((call_id, file_id)
-                    for dirty, file_id, file_digest in dst_call_files if dirty))
+                'INSERT OR IGNORE INTO File (file_name) VALUES (?)',
+                [(dst,) for dst in dsts])
+
+            self.cursor.executemany('''
+                INSERT INTO ExternalDst (call_id,file_id)
+                SELECT ?,file_id FROM File WHERE file_name=?
+                ''', [(call_id, dst) for dst in dsts])
 
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From af0f5b425d668ae893002f7e552956bf5182c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 08/74] fix: sqlite: tell whether --delete-function deleted
 something

It reported that the function was not cached after having deleted it.
---
 lib/fbuild/db/sqlite_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 24dabb0..8af5ab8 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -228,6 +228,8 @@ class SqliteBackend(fbuild.db.backend.Backend):
             'DELETE FROM Function WHERE fun_name=?',
             (fun_name,))
 
+        return self.cursor.rowcount > 0
+
     # --------------------------------------------------------------------------
 
     def _pickle_dumps(self, obj):
-- 
2.43.0


From 1939f8e8469b0bcd794d57c31e56899630c69874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:20 +0000
Subject: [PATCH 09/74] fix: rpc: accept calls as soon as start returns

start waited for the thread to say that it started, but the thread only marked
itself as running after that, so a call right after start could raise
RPCNotRunning.
---
 lib/fbuild/rpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index e8f6b0e..fbbedde 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -77,8 +77,8 @@ class RPC(threading.Thread):
     def run(self):
         """Run the rpc thread."""
 
-        self._started.set()
         self._running = True
+        self._started.set()
 
         try:
             while True:
-- 
2.43.0


From 69ad38744e462c43f93a9364c0015b2f4c69d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:41 +0000
Subject: [PATCH 10/74] fix: do not run the remaining tasks of a map after one
 failed

---
 lib/fbuild/sched.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index ffd1a5d..3d2bc7c 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -210,6 +210,8 @@ class Scheduler:
 
         # Add each task to our work set and map dependencies to dependents.
         for task in tasks:
+            task.siblings = tasks
+
             for dep in task.dependencies:
                 children[dep].append(task)
 
@@ -264,10 +266,6 @@ class Scheduler:
             # If a task raised an exception, cancel the rest of the tasks and
             # error out.
             if task.exc is not None:
-                # Clear our queue of tasks.
-                for t in tasks:
-                    t.done = True
-
                 raise task.exc
 
             # Otherwise, add it to our results.
@@ -393,7 +391,9 @@ class Task:
         self.index = index
         self.running = False
         self.done = False
+        self.cancelled = False
         self.dependencies = []
+        self.siblings = ()
         self.exc = None
         # The task belongs to whatever created it, no matter which thread ends
         # up running it.
@@ -414,7 +414,14 @@ class Task:
     def run(self):
         """Run the task's function."""
 
+        if self.cancelled:
+            return
+
         try:
             self.result = self.context.run(self.function, self.src)
         except Exception as e:
             self.exc = e
+
+            # Nobody is going to wait for the rest of the tasks.
+            for task in self.siblings:
+                task.cancelled = True
-- 
2.43.0


From 74e0ee6770b1951205dd610b01a4f81c169c2c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:55 +0000
Subject: [PATCH 11/74] fix: hand SystemExit and the like in a task on to the
 caller of map

---
 lib/fbuild/sched.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 3d2bc7c..01068be 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -419,7 +419,9 @@ class Task:
 
         try:
             self.result = self.context.run(self.function, self.src)
-        except Exception as e:
+        except BaseException as e:
+            # This includes SystemExit. It's up to whoever waits for the task,
+            # and must not end the worker thread.
             self.exc = e
 
             # Nobody is going to wait for the rest of the tasks.
-- 
2.43.0


From dd5a440bd36285fce0b29e4f85065abe0ff1917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:31 +0000
Subject: [PATCH 12/74] fix: rpc: wait until the thread serves calls, not just
 until it exists

---
 lib/fbuild/rpc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index fbbedde..471c989 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -33,7 +33,9 @@ class RPC(threading.Thread):
         self._lock = threading.Lock()
         self._queue = queue.Queue()
         self._events = threading.local()
-        self._started = threading.Event()
+        # Not to be called _started, which is an event threading.Thread sets on
+        # its own before it calls run.
+        self._serving = threading.Event()
         self._running = False
 
     def call(self, *args, **kwargs):
@@ -72,13 +74,13 @@ class RPC(threading.Thread):
     def start(self, *args, **kwargs):
         super().start(*args, **kwargs)
 
-        self._started.wait()
+        self._serving.wait()
 
     def run(self):
         """Run the rpc thread."""
 
         self._running = True
-        self._started.set()
+        self._serving.set()
 
         try:
             while True:
-- 
2.43.0


From a7b06316e364378cb2bc09f110ff8f5222c76dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:31 +0000
Subject: [PATCH 13/74] fix: bind arguments as Python does: too many or too few
 positional ones, keyword-only ones without defaults, positional-only ones

---
 lib/fbuild/functools.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/lib/fbuild/functools.py b/lib/fbuild/functools.py
index e22d64a..fc04572 100644
--- a/lib/fbuild/functools.py
+++ b/lib/fbuild/functools.py
@@ -121,7 +121,7 @@ def normalize_args(function, args, kwargs):
     fn_totalargs = fn_argcount + fn_kwargcount
 
     # Error out if we specified too many arguments and we aren't taking varargs
-    if len(args) > fn_totalargs and not varargs:
+    if len(args) > fn_argcount and not varargs:
         raise TypeError(
             '%s.%s() takes %s %d %spositional argument%s (%d given)' % (
                 function.__module__,
@@ -132,13 +132,18 @@ def normalize_args(function, args, kwargs):
                 '' if fn_totalargs == 1 else 's',
                 len(args)))
 
-    new_args = list(args)
+    # These cannot be passed by keyword.
+    posonly = {p.name
+        for p in inspect.signature(function, follow_wrapped=False).parameters.values()
+        if p.kind is p.POSITIONAL_ONLY}
 
     # For each function argument, find the arg or kwarg it corresponds with
     argcount = 0
     for i, key in enumerate(fn_args):
         # First, check if we provide a kwarg for it
         try:
+            if key in posonly:
+                raise KeyError(key)
             value = kwargs.pop(key)
         except KeyError:
             # No kwarg, so see if we specified an argument
@@ -165,7 +170,7 @@ def normalize_args(function, args, kwargs):
         argcount += 1
 
     # If we didn't get enough arguments, error out
-    if argcount + defcount < fn_argcount:
+    if argcount < fn_argcount:
         raise TypeError(
             '%s.%s() takes %s %d %spositional argument%s (%d given)' % (
                 function.__module__,
@@ -187,7 +192,7 @@ def normalize_args(function, args, kwargs):
         except KeyError:
             # If no kwarg was specified, so see if there's a default argument
             try:
-                bound_kwargs[key] = spec.kwonlydefaults[key]
+                bound_kwargs[key] = (spec.kwonlydefaults or {})[key]
             except KeyError:
                 # None found, so error out
                 raise TypeError(
@@ -199,9 +204,8 @@ def normalize_args(function, args, kwargs):
         bound_kwargs.update(kwargs)
     else:
         for key, value in kwargs.items():
-            # if the key isn't in the fn_args and isn't related to
-            # magic method decorators, it's unknown
-            if key not in fn_args and key != '__FBUILD_INNER':
+            # if the key isn't related to magic method decorators, it's unknown
+            if key != '__FBUILD_INNER':
                 raise TypeError(
                     '%s() got an unexpected keyword argument %r' %
                     (function.__name__, key))
@@ -230,6 +234,11 @@ def bind_args(function, args, kwargs):
     """
 
     function = unwrap(function)
+
+    # Leave out __FBUILD_INNER, because it doesn't really matter here and would
+    # only make the rest of the code more complicated.
+    kwargs = {k: v for k, v in kwargs.items() if k != '__FBUILD_INNER'}
+
     args, kwargs = normalize_args(function, args, kwargs)
     spec = inspect.getfullargspec(function)
     fn_args = spec.args
@@ -252,12 +261,6 @@ def bind_args(function, args, kwargs):
     if spec.varkw is not None:
         bound[spec.varkw] = kwargs
 
-    # Remove __FBUILD_INNER, because it doesn't really matter here and will
-    # only make the rest of the code more complicated.
-    for kind in 'kw', 'kwargs':
-        if kind in bound and '__FBUILD_INNER' in bound[kind]:
-            bound[kind].pop('__FBUILD_INNER', None)
-
     return bound
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From 1e24a17118a301c7b8c200e2a7a415a659d3d668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:00 +0000
Subject: [PATCH 14/74] fix: fnmatch: ranges without characters, as in [b-a],
 are no error

---
 lib/fbuild/fnmatch.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/fbuild/fnmatch.py b/lib/fbuild/fnmatch.py
index 1947bc4..138a981 100644
--- a/lib/fbuild/fnmatch.py
+++ b/lib/fbuild/fnmatch.py
@@ -110,13 +110,8 @@ def _translate(i, pat, end):
             if j >= n:
                 res = res + '\\['
             else:
-                stuff = pat[i:j].replace('\\','\\\\')
+                res = res + _translate_set(pat[i:j])
                 i = j+1
-                if stuff[0] == '!':
-                    stuff = '^' + stuff[1:]
-                elif stuff[0] == '^':
-                    stuff = '\\' + stuff
-                res = '%s[%s]' % (res, stuff)
         elif c == '{':
             i, sub = _translate_subexpression(i, pat)
             res += sub
@@ -124,6 +119,23 @@ def _translate(i, pat, end):
             res = res + re.escape(c)
     return i, '', res
 
+def _translate_set(stuff):
+    neg, empty = '', '(?!)'
+    if stuff[0] == '!':
+        neg, empty, stuff = '^', '.', stuff[1:]
+
+    res = ''
+    while stuff:
+        if len(stuff) > 2 and stuff[1] == '-':
+            lo, hi, stuff = stuff[0], stuff[2], stuff[3:]
+        else:
+            lo, hi, stuff = stuff[0], stuff[0], stuff[1:]
+        if lo <= hi:
+            res = res + re.escape(lo) + '-' + re.escape(hi)
+
+    # a set of nothing but empty ranges contains no characters
+    return '[%s%s]' % (neg, res) if res else empty
+
 def _translate_subexpression(i, pat):
     j = i
     subexpressions = []
-- 
2.43.0


From b001030f7c6ec02903c06a15435a5e255c3581eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:00 +0000
Subject: [PATCH 15/74] fix: fnmatch: newlines in names are characters like
 others

---
 lib/fbuild/fnmatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/fnmatch.py b/lib/fbuild/fnmatch.py
index 138a981..07581e6 100644
--- a/lib/fbuild/fnmatch.py
+++ b/lib/fbuild/fnmatch.py
@@ -85,7 +85,7 @@ def translate(pat):
     There is no way to quote meta-characters.
     """
 
-    return _translate(0, pat, '')[2] + '$'
+    return '(?s:' + _translate(0, pat, '')[2] + r')\Z'
 
 def _translate(i, pat, end):
     res = ''
-- 
2.43.0


From ba0b05d39bffb6272e36fbaeb050ccfa10cc5704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 16/74] fix: exclude applies to nested lists of patterns, too

---
 lib/fbuild/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/path.py b/lib/fbuild/path.py
index 9fa5b12..ea8ce55 100644
--- a/lib/fbuild/path.py
+++ b/lib/fbuild/path.py
@@ -528,7 +528,7 @@ class Path(str):
             if \
                     not isinstance(pattern, str) and \
                     isinstance(pattern, collections.Iterable):
-                paths = Path.igloball(*pattern)
+                paths = Path.igloball(*pattern, **kwargs)
             else:
                 paths = Path.glob(pattern, **kwargs)
 
-- 
2.43.0


From 069c9768dd37fdb1c28c1b8152643edefccebd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 17/74] fix: glob: ** yields neither an empty path nor a name
 below a file or a missing directory

---
 lib/fbuild/glob.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/fbuild/glob.py b/lib/fbuild/glob.py
index b0c8281..2ebf8ae 100644
--- a/lib/fbuild/glob.py
+++ b/lib/fbuild/glob.py
@@ -32,10 +32,8 @@ def iglob(pathname, *, recursive=True):
     """
 
     it = _iglob(pathname, recursive)
-    if recursive and _isrecursive(pathname):
-        s = next(it)  # skip empty string
-        assert not s
-    return it
+    # '**' also stands for no directory at all; skip the empty string
+    return (path for path in it if path)
 
 def _iglob(pathname, recursive):
     dirname, basename = os.path.split(pathname)
@@ -108,7 +106,8 @@ def glob0(dirname, basename):
 
 def glob2(dirname, pattern):
     assert _isrecursive(pattern)
-    yield pattern[:0]
+    if not dirname or os.path.isdir(dirname):
+        yield pattern[:0]
     for item in _rlistdir(dirname):
         yield item
 
-- 
2.43.0


From f45b6189198b588199d136d36b06f100991e3fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:16 +0000
Subject: [PATCH 18/74] fix: path: splitall gives the root as a path, too

---
 lib/fbuild/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/path.py b/lib/fbuild/path.py
index ea8ce55..b801892 100644
--- a/lib/fbuild/path.py
+++ b/lib/fbuild/path.py
@@ -416,7 +416,7 @@ class Path(str):
 
             if path == old_path:
                 if path:
-                    paths.append(path)
+                    paths.append(Path(path))
                 break
             else:
                 old_path = path
-- 
2.43.0


From 611c86cc70976e6063dc554cdb6855b705fb6ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:38 +0000
Subject: [PATCH 19/74] fix: path: expanduser of a path that begins with ~
 raised TypeError

---
 lib/fbuild/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/path.py b/lib/fbuild/path.py
index b801892..b7d753c 100644
--- a/lib/fbuild/path.py
+++ b/lib/fbuild/path.py
@@ -178,7 +178,7 @@ class Path(str):
     def expanduser(self):
         """Expand ~ and ~user constructs.  If user or $HOME is unknown, do
         nothing."""
-        return Path(os.path.expanduser(self))
+        return Path(os.path.expanduser(str(self)))
 
     def expandvars(self):
         """Expand shell variables of form $var and ${var}.  Unknown variables
-- 
2.43.0


From 70074ab5f9d40a0429c9fcdc5f00e004c6582121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:07 +0000
Subject: [PATCH 20/74] fix: path: removedirs, link, samefile, chown and the
 like could only raise

---
 lib/fbuild/path.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/fbuild/path.py b/lib/fbuild/path.py
index b7d753c..d2e9e68 100644
--- a/lib/fbuild/path.py
+++ b/lib/fbuild/path.py
@@ -339,7 +339,7 @@ class Path(str):
         return os.remove(self)
 
     def removedirs(self):
-        return removedirs(self)
+        return os.removedirs(self)
 
     def removeroot(self, root):
         """Remove the root of the path with "root", unless it doesn't already
@@ -460,25 +460,25 @@ class Path(str):
     # os-specific functions
 
     if hasattr(os, 'chflags'):
-        def chflags(self):  return os.chflags(self)
+        def chflags(self, *args, **kw): return os.chflags(self, *args, **kw)
 
     if hasattr(os, 'chown'):
-        def chown(self):    return os.chown(self)
+        def chown(self, *args, **kw): return os.chown(self, *args, **kw)
 
     if hasattr(os, 'chroot'):
         def chroot(self):   return os.chroot(self)
 
     if hasattr(os, 'lchflags'):
-        def lchflags(self): return os.lchflags(self)
+        def lchflags(self, *args, **kw): return os.lchflags(self, *args, **kw)
 
     if hasattr(os, 'lchmod'):
-        def lchmod(self):   return os.lchmod(self)
+        def lchmod(self, *args, **kw): return os.lchmod(self, *args, **kw)
 
     if hasattr(os, 'lchown'):
-        def lchown(self):   return os.lchown(self)
+        def lchown(self, *args, **kw): return os.lchown(self, *args, **kw)
 
     if hasattr(os, 'link'):
-        def link(self):     return os.link(self)
+        def link(self, target): return os.link(self, target)
 
     if hasattr(os, 'mkfifo'):
         def mkfifo(self):   return os.mkfifo(self)
@@ -493,7 +493,7 @@ class Path(str):
         def symlink(self, target):  return os.symlink(self, target)
 
     if hasattr(os.path, 'samefile'):
-        def samefile(self): return os.path.samefile(self)
+        def samefile(self, other): return os.path.samefile(self, other)
 
     if hasattr(os.path, 'splitunc'):
         def splitunc(self):
-- 
2.43.0


From 64e32ace5c80d3710d227a8be9c802e2b0141657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:25 +0000
Subject: [PATCH 21/74] fix: cached functions can have a parameter named
 function

---
 lib/fbuild/db/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 3ce86de..dccb352 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -80,7 +80,7 @@ class Database:
         self._connected = False
         return result
 
-    def call(self, function, *args, **kwargs):
+    def call(self, function, /, *args, **kwargs):
         """Call the function and return the result, src dependencies, and dst
         dependencies. If the function has been previously called with the same
         arguments, return the cached results.  If we detect that the function
-- 
2.43.0


From 1a0b8741239dc16ef421fec10943d9b8bdc68b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:41 +0000
Subject: [PATCH 22/74] fix: persistent objects differ if only one of them has
 some attribute

---
 lib/fbuild/db/__init__.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lib/fbuild/db/__init__.py b/lib/fbuild/db/__init__.py
index be56d8c..564b43d 100644
--- a/lib/fbuild/db/__init__.py
+++ b/lib/fbuild/db/__init__.py
@@ -141,15 +141,8 @@ class PersistentObject(metaclass=PersistentMeta):
         if not isinstance(other, type(self)):
             return False
 
-        # Step through the members and exit if they aren't equal.
-        try:
-            for key in self.__dict__:
-                if getattr(self, key) != getattr(other, key):
-                    return False
-        except AttributeError:
-            return False
-        else:
-            return True
+        # The objects have to have the same members, and these have to be equal.
+        return self.__dict__ == other.__dict__
 
 # ------------------------------------------------------------------------------
 
-- 
2.43.0


From 24f65f3459862066da92d372866da55d8fd3a766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:45 +0000
Subject: [PATCH 23/74] fix: sched: interruptible released the controlling lock
 of other threads

---
 lib/fbuild/sched.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 01068be..fb21d69 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -89,8 +89,9 @@ class Scheduler:
             import fbuild.console
             logger = fbuild.console.Log()
 
-        # Set up the controlling lock.
-        self.__controlling_lock = threading.Lock()
+        # Set up the controlling lock. Only the thread that holds it may release
+        # it, see interruptible.
+        self.__controlling_lock = threading.RLock()
 
         # Spin up our threads!
         for i in range(threadcount):
-- 
2.43.0


From 456504211d35ee320c032b4e7e5aadc9c3578ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:16 +0000
Subject: [PATCH 24/74] fix: sched: shutdown could wait forever while tasks
 were still under way

---
 lib/fbuild/sched.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index fb21d69..9139373 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -305,12 +305,14 @@ class Scheduler:
     def shutdown(self):
         """Tell the worker threads to shut down."""
 
+        for thread in self.__threads:
+            thread.shutdown()
+
         # make sure we wake the threads before we kill them.
         for thread in self.__threads:
             self.__ready_queue.put(None)
 
         for thread in self.__threads:
-            thread.shutdown()
             thread.join()
 
         # Reset our thread list.
@@ -349,6 +351,10 @@ class WorkerThread(threading.Thread):
             # let the main thread know we got a SIGINT
             _thread.interrupt_main()
             raise
+        finally:
+            # This thread may have been woken up more than once while it was
+            # still busy, so hand it on to one that is waiting.
+            self.__ready_queue.put(None)
 
     def read_task(self, *args, **kwargs):
         """
-- 
2.43.0


From f5c525a4185c0f699c5e2973ecb1f52d170a75c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:42 +0000
Subject: [PATCH 25/74] fix: sched: map_with_dependencies failed on long chains
 of dependencies

---
 lib/fbuild/sched.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 9139373..149fca8 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -182,17 +182,24 @@ class Scheduler:
         visited = set()
         results = []
 
-        def f(task):
+        for src in srcs:
+            task = tasks[src]
             if task in visited:
-                return
+                continue
             visited.add(task)
 
-            for n in task.dependencies:
-                f(n)
-            results.append(task.result)
-
-        for src in srcs:
-            f(tasks[src])
+            # Long chains of dependencies don't fit on the python stack.
+            stack = [(task, iter(task.dependencies))]
+            while stack:
+                task, dependencies = stack[-1]
+                for n in dependencies:
+                    if n not in visited:
+                        visited.add(n)
+                        stack.append((n, iter(n.dependencies)))
+                        break
+                else:
+                    stack.pop()
+                    results.append(task.result)
 
         return results
 
-- 
2.43.0


From 47b96ad80412c25018ecdccc955a370a72e50cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:42 +0000
Subject: [PATCH 26/74] fix: sched: dependency loops of three or more items
 were not reported

---
 lib/fbuild/sched.py | 59 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 7 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 149fca8..708e3ad 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -293,18 +293,63 @@ class Scheduler:
             # dependencies and error out.
             recursive_srcs = set()
 
-            for task in tasks:
-                if task.done:
-                    continue
-
-                for dep in children[task]:
-                    if task in dep.dependencies and dep in task.dependencies:
-                        recursive_srcs.add(frozenset((task.src, dep.src)))
+            for loop in self._find_loops([t for t in tasks if not t.done]):
+                recursive_srcs.add(frozenset(task.src for task in loop))
 
             raise DependencyLoop(recursive_srcs)
 
         return results
 
+    def _find_loops(self, tasks):
+        """Return the groups of tasks that depend on each other, either directly
+        or through other tasks."""
+
+        # First, order the tasks so that each one comes after its dependencies.
+        finished = []
+        visited = set()
+        for task in tasks:
+            if task in visited:
+                continue
+            visited.add(task)
+
+            stack = [(task, iter(task.dependencies))]
+            while stack:
+                task, dependencies = stack[-1]
+                for dep in dependencies:
+                    if not dep.done and dep not in visited:
+                        visited.add(dep)
+                        stack.append((dep, iter(dep.dependencies)))
+                        break
+                else:
+                    stack.pop()
+                    finished.append(task)
+
+        # Then, starting with the last one, walk to the dependents. Those we have
+        # not been to yet are in a loop with the one we started with.
+        children = collections.defaultdict(list)
+        for task in tasks:
+            for dep in task.dependencies:
+                children[dep].append(task)
+
+        loops = []
+        visited = set()
+        for task in reversed(finished):
+            if task in visited:
+                continue
+            visited.add(task)
+
+            loop = [task]
+            for task in loop:
+                for child in children[task]:
+                    if child not in visited:
+                        visited.add(child)
+                        loop.append(child)
+
+            if len(loop) > 1 or loop[0] in loop[0].dependencies:
+                loops.append(loop)
+
+        return loops
+
     def __del__(self):
         # Make sure we shutdown all our threads before we quit.
         self.shutdown()
-- 
2.43.0


From 125b0ef681eae72bc85d4fffb1776e5624469fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 27/74] fix: sqlite: a killed first build lost all the calls it
 had recorded

---
 lib/fbuild/db/sqlite_backend.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 8af5ab8..28fba2c 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -44,8 +44,20 @@ class SqliteBackend(fbuild.db.backend.Backend):
         self.conn = sqlite3.connect(self._file_name)
         self.cursor = self.conn.cursor()
 
+        # Check if there's a database already before we create the tables.
+        self.cursor.execute('SELECT name FROM sqlite_master')
+        is_new = not self.cursor.fetchall()
+
         self._initialize_database()
 
+        # A new database has our version from the start. If we saved it only
+        # once we're done, the next build would throw everything away if this
+        # one gets killed.
+        if is_new:
+            self.cursor.execute('INSERT INTO Version (version) VALUES (?)',
+                                (self._LATEST_VERSION,))
+            self.conn.commit()
+
         # Load the version.
         self.cursor.execute('SELECT version FROM Version')
         rows = self.cursor.fetchall()
-- 
2.43.0


From 49cf8324a6aff4cf61d186e4ddc0c055e9689659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 28/74] fix: pickle: a build killed while it saves lost the
 saved database

---
 lib/fbuild/db/pickle_backend.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/lib/fbuild/db/pickle_backend.py b/lib/fbuild/db/pickle_backend.py
index a3af2a7..fb789b7 100644
--- a/lib/fbuild/db/pickle_backend.py
+++ b/lib/fbuild/db/pickle_backend.py
@@ -1,4 +1,5 @@
 import io
+import os
 import pickle
 
 import fbuild.db.cache_backend
@@ -53,21 +54,13 @@ class PickleBackend(fbuild.db.cache_backend.CacheBackend):
 
         s = f.getvalue()
 
-        # Try to save the state as atomically as possible. Unfortunately, if
-        # someone presses ctrl+c while we're saving, we might corrupt the db.
-        # So, we'll write to a temp file, then move the old state file out of
-        # the way, then rename the temp file to the filename.
+        # Save the state atomically, so that the old one stays if someone kills
+        # us while we're saving. So, we'll write to a temp file, then rename the
+        # temp file to the filename.
         path = fbuild.path.Path(self._file_name)
         tmp = path + '.tmp'
-        old = path + '.old'
 
         with open(tmp, 'wb') as f:
             f.write(s)
 
-        if path.exists():
-            path.rename(old)
-
-        tmp.rename(path)
-
-        if old.exists():
-            old.remove()
+        os.replace(tmp, path)
-- 
2.43.0


From 83150c091e53c6e95e06f1f2c466b121215cbc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 29/74] fix: db: a call answered from the database lost its
 registered files for its callers

---
 lib/fbuild/db/database.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index dccb352..f336648 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -155,7 +155,13 @@ class Database:
                     dirty_dsts.add(dst)
                     break
             else:
-                # The call was not dirty, so return the cached value.
+                # The call was not dirty, so return the cached value. What it
+                # registered while it ran belongs to the calls it is part of
+                # now too.
+                self.add_external_dependencies_to_call(
+                    srcs=external_srcs,
+                    dsts=external_dsts)
+
                 all_srcs = srcs.union(external_srcs)
                 all_dsts = dsts.union(external_dsts)
                 all_dsts.update(return_dsts)
-- 
2.43.0


From 2f54d658eba167effb5ac1ac5a483d20b54872a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 30/74] fix: console: logging what the encoding doesn't have
 was an error

A command with an argument that is not UTF-8 ran, but then failed in the
logger.
---
 lib/fbuild/console.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/console.py b/lib/fbuild/console.py
index e7c475d..10bed74 100644
--- a/lib/fbuild/console.py
+++ b/lib/fbuild/console.py
@@ -89,6 +89,13 @@ else:
 
         sys.stdout.write(s)
 
+def _encodable(s, file):
+    """Escape the characters that the file cannot encode."""
+    encoding = getattr(file, 'encoding', None)
+    if encoding:
+        s = s.encode(encoding, 'backslashreplace').decode(encoding)
+    return s
+
 # Add in some color aliases
 _colorcodes['compile'] = _colorcodes['green']
 _colorcodes['link'] = _colorcodes['cyan']
@@ -143,12 +150,12 @@ class Log:
         # make sure message is a string
         msg = str(msg)
         if self.file:
-            self.file.write(msg)
+            self.file.write(_encodable(msg, self.file))
 
         if verbose <= self.verbose:
             if self.nocolor:
                 color = None
-            _write_colored_str(msg, color)
+            _write_colored_str(_encodable(msg, sys.stdout), color)
         self.flush()
 
     def flush(self):
-- 
2.43.0


From 8a65bd9163a25af5cdffe658f82c223bf968de35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 31/74] fix: execute: a command with empty input read the input
 of the build

---
 lib/fbuild/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/context.py b/lib/fbuild/context.py
index 91b7615..6084587 100644
--- a/lib/fbuild/context.py
+++ b/lib/fbuild/context.py
@@ -195,7 +195,7 @@ class Context:
         starttime = time.time()
         try:
             p = fbuild.subprocess.killableprocess.Popen(cmd,
-                stdin=fbuild.subprocess.PIPE if input else stdin,
+                stdin=stdin if input is None else fbuild.subprocess.PIPE,
                 stdout=stdout,
                 stderr=stderr,
                 env=env,
-- 
2.43.0


From 40705fae726bdd28be230529a29293ba1b846667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 32/74] fix: console: lines of parallel tasks were torn

Only the first line of a task was kept together, the buffer was gone after
that. A line that was only continued later was written early, so that other
tasks wrote in the middle of it.
---
 lib/fbuild/console.py | 55 ++++++++++++++++++++++++++-----------------
 lib/fbuild/sched.py   | 13 +++++-----
 2 files changed, 40 insertions(+), 28 deletions(-)

diff --git a/lib/fbuild/console.py b/lib/fbuild/console.py
index 10bed74..5a0a707 100644
--- a/lib/fbuild/console.py
+++ b/lib/fbuild/console.py
@@ -133,22 +133,28 @@ class Log:
             yield
         finally:
             self.flush()
+            self._thread_stack.pop()
 
     def write(self, msg, *, buffer=True, **kwargs):
-        if not buffer or self._threadcount == 1:
-            with self._lock:
-                self._write(msg, **kwargs)
-        else:
-            if buffer and self._thread_stack:
-                self._thread_stack[-1].append((msg, kwargs))
-                if msg.endswith('\n'):
+        # make sure message is a string
+        msg = str(msg)
+
+        if buffer and self._threadcount != 1 and self._thread_stack:
+            msgs = self._thread_stack[-1]
+            msgs.append((msg, kwargs))
+
+            # Only write whole lines, both of the file and of what is shown.
+            if msg.endswith('\n'):
+                shown = ''.join(m for m, kw in msgs
+                    if kw.get('verbose', 0) <= self.verbose)
+
+                if not shown or shown.endswith('\n'):
                     self.flush()
-            else:
+        else:
+            with self._lock:
                 self._write(msg, **kwargs)
 
     def _write(self, msg, color=None, verbose=0):
-        # make sure message is a string
-        msg = str(msg)
         if self.file:
             self.file.write(_encodable(msg, self.file))
 
@@ -156,18 +162,22 @@ class Log:
             if self.nocolor:
                 color = None
             _write_colored_str(_encodable(msg, sys.stdout), color)
-        self.flush()
+        self._flush()
+
+    def _flush(self):
+        if self.file:
+            self.file.flush()
+        sys.stdout.flush()
 
     def flush(self):
         if self._thread_stack:
-            msgs = self._thread_stack.pop()
+            msgs = self._thread_stack[-1]
+            self._thread_stack[-1] = []
             with self._lock:
                 for msg, kwargs in msgs:
                     self._write(msg, **kwargs)
 
-        if self.file:
-            self.file.flush()
-        sys.stdout.flush()
+        self._flush()
 
     def log(self, msg, color=None, verbose=0):
         with self._lock:
@@ -184,13 +194,14 @@ class Log:
 
         msg = msg.ljust(self.maxlen) + ': '
 
-        if result is None:
-            self.write(msg, color=color, verbose=verbose)
-            self.write('\n', verbose=verbose + 1)
-        else:
-            self.write(msg, verbose=verbose)
-            self.write(result, color=color, verbose=verbose)
-            self.write('\n', verbose=verbose)
+        with self._lock:
+            if result is None:
+                self.write(msg, color=color, verbose=verbose)
+                self.write('\n', verbose=verbose + 1)
+            else:
+                self.write(msg, verbose=verbose)
+                self.write(result, color=color, verbose=verbose)
+                self.write('\n', verbose=verbose)
 
     def passed(self, msg='ok', color='green', **kwargs):
         self.log(msg, color=color, **kwargs)
diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 708e3ad..20a85bf 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -394,11 +394,10 @@ class WorkerThread(threading.Thread):
     def run(self):
         try:
             while not self.__finished:
-                with self.__logger.log_from_thread():
-                    queue_task = self.read_task()
-                    with self.__controlling_lock:
-                        if not self.run_one(queue_task):
-                            break
+                queue_task = self.read_task()
+                with self.__controlling_lock:
+                    if not self.run_one(queue_task):
+                        break
         except KeyboardInterrupt:
             # let the main thread know we got a SIGINT
             _thread.interrupt_main()
@@ -429,7 +428,9 @@ class WorkerThread(threading.Thread):
 
             done_queue, task = queue_task
             try:
-                task.run()
+                # Tasks that run while this one waits are not part of its lines.
+                with self.__logger.log_from_thread():
+                    task.run()
             finally:
                 done_queue.put(task)
         finally:
-- 
2.43.0


From 4ac21ab8a694cea1ba4033c6559f0b872cbd87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 33/74] fix: install: the permissions asked for were given to
 the source

---
 lib/fbuild/install.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/install.py b/lib/fbuild/install.py
index 003c3dd..30c2cad 100644
--- a/lib/fbuild/install.py
+++ b/lib/fbuild/install.py
@@ -27,8 +27,8 @@ class LocalCommander:
             os.symlink(file.readlink(), target)
         else:
             file.copy(target)
-        if perms is not None:
-            file.chmod(perms)
+            if perms is not None:
+                target.chmod(perms)
 
     def close(self): pass
 
-- 
2.43.0


From fd797a320951b997c09270a83fb8fdbf414df114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 34/74] fix: install: existing links and read-only files were
 written to, not replaced

---
 lib/fbuild/install.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/install.py b/lib/fbuild/install.py
index 30c2cad..1d54cff 100644
--- a/lib/fbuild/install.py
+++ b/lib/fbuild/install.py
@@ -22,10 +22,14 @@ class LocalCommander:
 
         if file.islink():
             # Assume the user knows what they're doing, and just copy the link itself.
-            if target.exists():
+            if target.lexists():
                 target.remove()
             os.symlink(file.readlink(), target)
         else:
+            # Replace what is there: writing to it would follow a link to
+            # another file, and fails if the file is read-only.
+            if target.islink() or target.isfile() and not target.samefile(file):
+                target.remove()
             file.copy(target)
             if perms is not None:
                 target.chmod(perms)
-- 
2.43.0


From c1a50cfcc410af049efdb1afd9dc5b6af015cd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 35/74] fix: install: directories with two leading slashes were
 outside of the destination

---
 lib/fbuild/context.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/context.py b/lib/fbuild/context.py
index 6084587..d01026d 100644
--- a/lib/fbuild/context.py
+++ b/lib/fbuild/context.py
@@ -268,11 +268,9 @@ class Context:
         prefix = Path(self.install_prefix)
 
         if subdir.startswith('/'):
-            target_root = destdir / subdir[1:]
+            target_root = destdir / subdir.lstrip('/')
         else:
-            if prefix.startswith('/'):
-                prefix = prefix[1:]
-            target_root = destdir / prefix / subdir
+            target_root = destdir / prefix.lstrip('/') / subdir
 
         # Generate the target path.
         target = target_root / (rename or path.basename())
-- 
2.43.0


From 5ec74e06b17c5f90d67e8e1652033d190402aa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 36/74] fix: main: configure install built before it configured

---
 lib/fbuild/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/main.py b/lib/fbuild/main.py
index 2408145..3669c19 100644
--- a/lib/fbuild/main.py
+++ b/lib/fbuild/main.py
@@ -106,7 +106,7 @@ def build(ctx):
         if targets[-1] != 'install':
             raise fbuild.Error('install must be last target')
         if not set(targets) - {'configure', 'install'}:
-            targets.insert(targets.index('install')-1, 'build')
+            targets.insert(targets.index('install'), 'build')
 
     # Step through each target and execute it.
     for target_name in targets:
-- 
2.43.0


From b6d4ea62e2356e36a34c2bfed31bfb0abf49e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 37/74] fix: --do-not-save-database saved the results with the
 sqlite engine

---
 lib/fbuild/context.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/context.py b/lib/fbuild/context.py
index d01026d..2f28218 100644
--- a/lib/fbuild/context.py
+++ b/lib/fbuild/context.py
@@ -79,13 +79,22 @@ class Context:
         self.tmpdir.mkdir()
 
     def load_configuration(self):
+        state_file = self.options.state_file
+
+        # If the database isn't to be saved, work on a copy, since some engines
+        # save the results as they come.
+        if self.options.do_not_save_database:
+            state_file = self.tmpdir / state_file.basename()
+            if self.options.state_file.exists():
+                self.options.state_file.copy(state_file)
+
         # Optionally do `not` load the old database by deleting the old state
         # file.
         if (self.options.force_rebuild or self.options.force_configuration) and \
-                self.options.state_file.exists():
-            self.options.state_file.remove()
+                state_file.exists():
+            state_file.remove()
 
-        self.db.connect(self.options.state_file)
+        self.db.connect(state_file)
 
     def save_configuration(self):
         # Optionally do `not` save the database.
-- 
2.43.0


From 36700aca2dd48a14bd210c038ace9b3b918fc7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 38/74] fix: --delete-function: users of the function stayed if
 something else called it first

---
 lib/fbuild/db/backend.py  | 9 +++++++--
 lib/fbuild/db/database.py | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 8fdc64a..ee86a3a 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -177,7 +177,8 @@ class Backend:
 
     def delete_function_and_users(self, fun_name):
         """Clear the function, and everything that directly or indirectly
-        depends on it, from the database."""
+        depends on it, from the database. Returns whether the function was in
+        there."""
 
         seen = {fun_name}
         todo = [fun_name]
@@ -186,7 +187,11 @@ class Backend:
             users = set(self.find_users(name)) - seen
             seen.update(users)
             todo.extend(users)
-            self.delete_function(name)
+            existed = self.delete_function(name)
+            if name == fun_name:
+                function_existed = existed
+
+        return function_existed
 
 
     def save_function(self, fun_id, fun_name, fun_digest, fun_dependents):
diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index f336648..75de325 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -232,7 +232,8 @@ class Database:
     def delete_function(self, fun_name):
         """Delete the function from the database."""
 
-        return self._rpc.call(self._backend.delete_function, fun_name)
+        return self._rpc.call(
+            self._backend.delete_function_and_users, fun_name)
 
     def delete_file(self, file_name):
         """Delete the file from the database."""
-- 
2.43.0


From ac55bf3170f3c6e33345559cb3e9a8ed44a51fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 39/74] fix: rpc: the call after an interrupted one could
 return before it was served

---
 lib/fbuild/rpc.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index 471c989..3a40486 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -32,7 +32,6 @@ class RPC(threading.Thread):
         self._handler = handler
         self._lock = threading.Lock()
         self._queue = queue.Queue()
-        self._events = threading.local()
         # Not to be called _started, which is an event threading.Thread sets on
         # its own before it calls run.
         self._serving = threading.Event()
@@ -48,14 +47,9 @@ class RPC(threading.Thread):
             # Create an object to hold the result of the function call.
             result = _Result()
 
-            # Since we will block while waiting for our function to get called, we
-            # can cache our events per thread.
-            try:
-                event = self._events.event
-            except AttributeError:
-                event = self._events.event = threading.Event()
-            else:
-                event.clear()
+            # The event can't be reused for the next call of this thread: if we
+            # get interrupted, it will be set for this call some time later.
+            event = threading.Event()
 
             msg = (event, result, args, kwargs)
             self._queue.put(msg)
-- 
2.43.0


From 4ac189badcd52eb4ed948f679375db661123c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 40/74] fix: rpc: a returned exception was raised

---
 lib/fbuild/rpc.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index 3a40486..3206df4 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -20,6 +20,7 @@ class _Result:
 
     def __init__(self):
         self.result = _NULL
+        self.error = None
 
 # ------------------------------------------------------------------------------
 
@@ -57,13 +58,12 @@ class RPC(threading.Thread):
         # Wait for the message to be processed.
         event.wait()
 
-        assert result.result is not _NULL, "function failed to get called!"
-
         # Raise any exceptions we've received.
-        if isinstance(result.result, BaseException):
-            raise result.result
-        else:
-            return result.result
+        if result.error is not None:
+            raise result.error
+
+        assert result.result is not _NULL, "function failed to get called!"
+        return result.result
 
     def start(self, *args, **kwargs):
         super().start(*args, **kwargs)
@@ -107,10 +107,10 @@ class RPC(threading.Thread):
         try:
             result.result = self._handler(*args, **kwargs)
         except Exception as err:
-            result.result = err
+            result.error = err
         except BaseException as err:
             # Let the client know that we had a fatal error.
-            result.result = err
+            result.error = err
             raise
         finally:
             # Let the client know that we finished.
-- 
2.43.0


From a4f96cf9ea8eb1e54ac4c7a604fd0775c7089487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 41/74] fix: rpc: ending the service twice, and calls left when
 it failed, waited forever

---
 lib/fbuild/rpc.py | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index 3206df4..c090d46 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -32,6 +32,7 @@ class RPC(threading.Thread):
 
         self._handler = handler
         self._lock = threading.Lock()
+        self._join_lock = threading.Lock()
         self._queue = queue.Queue()
         # Not to be called _started, which is an event threading.Thread sets on
         # its own before it calls run.
@@ -79,17 +80,14 @@ class RPC(threading.Thread):
         try:
             while True:
                 msg = self._queue.get()
-                try:
-                    # If we received a null value, then we're supposed to shut
-                    # down.
-                    if msg is _NULL:
-                        sys.stdout.flush()
-                        break
-
-                    self._process(msg)
-                finally:
-                    # ... and let the queue know we finished.
-                    self._queue.task_done()
+
+                # If we received a null value, then we're supposed to shut
+                # down.
+                if msg is _NULL:
+                    sys.stdout.flush()
+                    break
+
+                self._process(msg)
         except KeyboardInterrupt:
             # let the main thread know we got a SIGINT
             import _thread
@@ -98,7 +96,16 @@ class RPC(threading.Thread):
         except BaseException as err:
             raise
         finally:
-            self._running = False
+            with self._lock:
+                self._running = False
+
+                # Nobody will answer the calls that are left.
+                while not self._queue.empty():
+                    msg = self._queue.get()
+                    if msg is not _NULL:
+                        event, result, args, kwargs = msg
+                        result.error = RPCNotRunning()
+                        event.set()
 
     def _process(self, msg):
         # Break up the message.
@@ -119,10 +126,14 @@ class RPC(threading.Thread):
     def join(self, *args, **kwargs):
         """Inform the thread to shut down."""
 
-        if self._running:
-            with self._lock:
-                # Shut down the queue first.
+        with self._lock:
+            # Shut down the queue first. There is nothing to do if somebody else
+            # did already.
+            if self._running:
+                self._running = False
                 self._queue.put(_NULL)
-                self._queue.join()
 
+        # Only one thread at a time can wait for another one.
+        with self._join_lock:
+            if self.is_alive():
                 super().join(*args, **kwargs)
-- 
2.43.0


From 23bc0e50ff389835f9778f2f2c8753eab214f676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:10 +0000
Subject: [PATCH 42/74] fix: platform options: adding to a set raised a
 TypeError

---
 lib/fbuild/builders/platform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/platform.py b/lib/fbuild/builders/platform.py
index 41cff87..d3037f9 100644
--- a/lib/fbuild/builders/platform.py
+++ b/lib/fbuild/builders/platform.py
@@ -207,7 +207,10 @@ def parse_platform_options(ctx, platform, platform_options, kwargs):
                         value = type(modifier)()
 
                     if operation == '+':
-                        value += modifier
+                        if isinstance(value, set):
+                            value |= modifier
+                        else:
+                            value += modifier
                     elif operation == '-':
                         filtered = (x for x in value if x not in modifier)
 
-- 
2.43.0


From 4e5a9371341e04433003b33c499079af64d278b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:10 +0000
Subject: [PATCH 43/74] fix: platform options: an addition changed the options
 given before

---
 lib/fbuild/builders/platform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/fbuild/builders/platform.py b/lib/fbuild/builders/platform.py
index d3037f9..6abcba8 100644
--- a/lib/fbuild/builders/platform.py
+++ b/lib/fbuild/builders/platform.py
@@ -223,6 +223,9 @@ def parse_platform_options(ctx, platform, platform_options, kwargs):
 
                     kwargs[key] = value
                 else:
+                    # A later '+' must not change the options themselves.
+                    if isinstance(modifier, (list, set)):
+                        modifier = type(modifier)(modifier)
                     kwargs[key] = modifier
 
 
-- 
2.43.0


From 36b6006eb0ab92df551722fee21ba436e5c2975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:10 +0000
Subject: [PATCH 44/74] fix: platform options: an addition changed the caller's
 values

---
 lib/fbuild/builders/platform.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fbuild/builders/platform.py b/lib/fbuild/builders/platform.py
index 6abcba8..684ebe0 100644
--- a/lib/fbuild/builders/platform.py
+++ b/lib/fbuild/builders/platform.py
@@ -248,6 +248,11 @@ def auto_platform_options(pass_platform=False):
                 ctx = args[0]
 
             if ctx is not None:
+                # The values given are the caller's, so add to copies of them.
+                for key, value in kw.items():
+                    if key != 'platform_options' and \
+                            isinstance(value, (list, set)):
+                        kw[key] = type(value)(value)
                 parse_platform_options(ctx, kw.get('platform', None),
                                        kw.pop('platform_options', []), kw)
             if not pass_platform:
-- 
2.43.0


From 5a6057af0d80b97c64daeb6388bda512a7f203c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:10 +0000
Subject: [PATCH 45/74] fix: find_program: files that cannot be executed were
 taken

---
 lib/fbuild/builders/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/__init__.py b/lib/fbuild/builders/__init__.py
index bec6bec..2764e62 100644
--- a/lib/fbuild/builders/__init__.py
+++ b/lib/fbuild/builders/__init__.py
@@ -54,13 +54,13 @@ def find_program(ctx, names, paths=None, *, quieter=0):
         filename = fbuild.path.Path(name)
         ctx.logger.check('looking for ' + filename.name, verbose=quieter)
 
-        if filename.exists() and filename.isfile():
+        if filename.isfile() and filename.access(os.X_OK):
             ctx.logger.passed('ok %s' % filename, verbose=quieter)
             return fbuild.path.Path(name)
         else:
             for path in paths:
                 filename = fbuild.path.Path(path, name)
-                if filename.exists() and filename.isfile():
+                if filename.isfile() and filename.access(os.X_OK):
                     ctx.logger.passed('ok %s' % filename, verbose=quieter)
                     return fbuild.path.Path(filename)
 
-- 
2.43.0


From 488c7ecb328a7f4ce7e8f9df9558d1678f2cdc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:03 +0000
Subject: [PATCH 46/74] fix: platform options: a cached function with them
 raised an AttributeError

---
 lib/fbuild/db/database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 75de325..691ea78 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -104,7 +104,8 @@ class Database:
         if hasattr(outer_function, '__fbuild_wrapped__'):
             kwargs['__FBUILD_INNER'] = function
             # XXX: This is a hack to prevent a duplicated self!
-            outer_function = outer_function.__func__
+            outer_function = getattr(
+                outer_function, '__func__', outer_function)
         else:
             outer_function = function
 
-- 
2.43.0


From 212802b865c1a5c5e7e1205ec3eb0b0ba62d4a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:54 +0000
Subject: [PATCH 47/74] fix: file.move: a second build failed as the file had
 been moved

---
 lib/fbuild/builders/file.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/builders/file.py b/lib/fbuild/builders/file.py
index 1e963ca..f49296f 100644
--- a/lib/fbuild/builders/file.py
+++ b/lib/fbuild/builders/file.py
@@ -88,11 +88,18 @@ def copy_regex(ctx, *, srcdir, dstdir, src_pattern, dst_pattern,
 
 # ------------------------------------------------------------------------------
 
-@fbuild.db.caches
-def move(ctx, src:fbuild.db.SRC, dst) -> fbuild.db.DST:
+# This is not cached, as afterwards there is no source to compare with.
+def move(ctx, src, dst):
     """
     Move a file to a different location. Creates the directory if it does not
-    exist.
+    exist. A file that an earlier build has moved is left where it is.
     """
 
+    if not Path(src).exists():
+        moved = Path(dst).addroot(ctx.buildroot)
+        if moved.isdir():
+            moved = moved / Path(src).name
+        if moved.exists():
+            return moved
+
     return _copy_or_move(ctx, src, dst, Path.move, 'move')
-- 
2.43.0


From a07d71d71ad3cae694380ee8357cf6744bab0071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:54 +0000
Subject: [PATCH 48/74] fix: file.copy_regex: a directory that matched was an
 error

---
 lib/fbuild/builders/file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fbuild/builders/file.py b/lib/fbuild/builders/file.py
index f49296f..b4d4125 100644
--- a/lib/fbuild/builders/file.py
+++ b/lib/fbuild/builders/file.py
@@ -73,6 +73,10 @@ def copy_regex(ctx, *, srcdir, dstdir, src_pattern, dst_pattern,
 
         if nsub > 0:
             dst = dstdir / Path(dst)
+            if src.isdir():
+                dst.makedirs()
+                continue
+
             ctx.logger.check(' * copy', '%s -> %s' % (src, dst), color='yellow')
 
             dst.parent.makedirs()
-- 
2.43.0


From 0eebad3dc40034c06c2a22cf3ff656b561e6a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 49/74] fix: file.copy_regex: a source directory with a slash
 at the end cut the names

---
 lib/fbuild/builders/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/file.py b/lib/fbuild/builders/file.py
index b4d4125..3a37f0d 100644
--- a/lib/fbuild/builders/file.py
+++ b/lib/fbuild/builders/file.py
@@ -69,7 +69,7 @@ def copy_regex(ctx, *, srcdir, dstdir, src_pattern, dst_pattern,
         dst, nsub = re.subn(
             src_pattern,
             dst_pattern,
-            src[len(srcdir + os.sep):])
+            src.relpath(srcdir))
 
         if nsub > 0:
             dst = dstdir / Path(dst)
-- 
2.43.0


From 17a896d9c17c34e40fd8b3ecb7901245e5057639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 50/74] fix: file.copy_regex: new files were not copied by a
 later build

---
 lib/fbuild/builders/file.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/fbuild/builders/file.py b/lib/fbuild/builders/file.py
index 3a37f0d..6223518 100644
--- a/lib/fbuild/builders/file.py
+++ b/lib/fbuild/builders/file.py
@@ -45,9 +45,21 @@ def copy(ctx, src:fbuild.db.SRC, dst) -> fbuild.db.DST:
 
 
 @fbuild.db.caches
+def _copy_regex_file(ctx, src:fbuild.db.SRC, dst) -> fbuild.db.DST:
+    ctx.logger.check(' * copy', '%s -> %s' % (src, dst), color='yellow')
+
+    dst.parent.makedirs()
+    src.copy(dst)
+
+    ctx.db.add_external_dependencies_to_call(srcs=[src], dsts=[dst])
+
+    return dst
+
+
+# This is not cached, only the copy of each file is, to find new files.
 def copy_regex(ctx, *, srcdir, dstdir, src_pattern, dst_pattern,
         exclude_pattern=None,
-        include_dirs=True) -> fbuild.db.DSTS:
+        include_dirs=True):
     """
     Recursively copies the files from the srcdir to the dstdir using the
     src_pattern and dst_pattern to choose and rename the files.
@@ -59,7 +71,6 @@ def copy_regex(ctx, *, srcdir, dstdir, src_pattern, dst_pattern,
     srcdir = Path(srcdir)
     dstdir = Path(dstdir).addroot(ctx.buildroot)
 
-    srcs = []
     dsts = []
     for src in srcdir.find(include_dirs=include_dirs):
         # Filter out any files we're ignoring.
@@ -77,16 +88,7 @@ def copy_regex(ctx, *, srcdir, dstdir, src_pattern, dst_pattern,
                 dst.makedirs()
                 continue
 
-            ctx.logger.check(' * copy', '%s -> %s' % (src, dst), color='yellow')
-
-            dst.parent.makedirs()
-            src.copy(dst)
-
-            srcs.append(src)
-            dsts.append(dst)
-
-    if srcs or dsts:
-        ctx.db.add_external_dependencies_to_call(srcs=srcs, dsts=dsts)
+            dsts.append(_copy_regex_file(ctx, src, dst))
 
     return dsts
 
-- 
2.43.0


From 67b0e2f39be445279606aab061468748d25aa8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:34 +0000
Subject: [PATCH 51/74] fix: file.copy: a changed read-only file could not be
 copied again

---
 lib/fbuild/builders/file.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/file.py b/lib/fbuild/builders/file.py
index 6223518..e53b33f 100644
--- a/lib/fbuild/builders/file.py
+++ b/lib/fbuild/builders/file.py
@@ -6,6 +6,17 @@ from fbuild.path import Path
 
 # ------------------------------------------------------------------------------
 
+def _replace(src, dst):
+    """
+    Copies a file over one that may be read-only, as the copies of read-only
+    files are.
+    """
+
+    if dst.isfile() and not dst.access(os.W_OK) and not dst.samefile(src):
+        dst.remove()
+    src.copy(dst)
+
+
 def _copy_or_move(ctx, src, dst, function, function_name):
     """
     Helper function to simplify copies and moves.
@@ -41,7 +52,7 @@ def copy(ctx, src:fbuild.db.SRC, dst) -> fbuild.db.DST:
     exist.
     """
 
-    return _copy_or_move(ctx, src, dst, Path.copy, 'copy')
+    return _copy_or_move(ctx, src, dst, _replace, 'copy')
 
 
 @fbuild.db.caches
@@ -49,7 +60,7 @@ def _copy_regex_file(ctx, src:fbuild.db.SRC, dst) -> fbuild.db.DST:
     ctx.logger.check(' * copy', '%s -> %s' % (src, dst), color='yellow')
 
     dst.parent.makedirs()
-    src.copy(dst)
+    _replace(src, dst)
 
     ctx.db.add_external_dependencies_to_call(srcs=[src], dsts=[dst])
 
-- 
2.43.0


From 2922d5cfa5b42888c4306f532ddf72533ce457d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 52/74] fix: gcc: names with spaces and other special
 characters could not be compiled

---
 lib/fbuild/builders/c/gcc/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 5638aab..e980cb8 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -452,13 +452,15 @@ class Builder(fbuild.builders.c.Builder):
                 stdout = f.read().replace(b'\\\n', b'')
 
         # Parse the output and return the module dependencies.
-        m = re.match(b'\s*\S+:(?: (.*))?$', stdout)
+        m = re.match(b'\s*(?:\\\\ |\S)+:(?: (.*))?$', stdout)
         if not m:
             raise fbuild.ExecutionError('unable to understand %r' % stdout)
 
         s = m.group(1)
         if s is not None:
-            deps = s.decode().split()
+            # Spaces in the names are escaped as they are in makefiles.
+            deps = [re.sub(r'\\([ #])', r'\1', dep).replace('$$', '$')
+                for dep in re.findall(r'(?:\\ |\S)+', s.decode())]
             self.ctx.db.add_external_dependencies_to_call(srcs=deps)
 
         return obj
-- 
2.43.0


From 0f99a9ad588ad16db44d972d1eb39b1dc7975eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 53/74] fix: gcc: repeated flags with arguments lost all but
 the first

---
 lib/fbuild/builders/c/gcc/__init__.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index e980cb8..881a742 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -192,12 +192,9 @@ class Gcc(fbuild.db.PersistentObject):
                 new_includes.append(include)
         includes = new_includes
 
-        # Make sure we don't repeat flags
-        new_flags = []
-        for flag in chain(self.flags, flags):
-            if flag not in new_flags:
-                new_flags.append(flag)
-        flags = new_flags
+        # Flags are repeated if they have an argument, as in '-include a.h
+        # -include b.h'.
+        flags = list(chain(self.flags, flags))
 
         macros = set(macros)
         macros.update(self.macros)
-- 
2.43.0


From 6108d8e703640c8e6e2974ea699deff0d661ed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 54/74] fix: gcc: a library kept objects that were not part of
 it any more

---
 lib/fbuild/builders/c/gcc/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 881a742..b35700b 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -67,6 +67,10 @@ class Ar(fbuild.db.PersistentObject):
 
         srcs = list(Path.globall(srcs))
 
+        # Objects that are not in the library any more must not stay in it.
+        if dst.exists():
+            dst.remove()
+
         cmd = [self.exe]
         cmd.extend(self.flags)
         cmd.extend(flags)
-- 
2.43.0


From b64da2e0e0f4b4315b7ac3a1404f192c68295f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 55/74] fix: c: libraries needed by the libraries of a program
 were not found when running it

---
 lib/fbuild/builders/c/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/c/__init__.py b/lib/fbuild/builders/c/__init__.py
index 8e56724..78e3b03 100644
--- a/lib/fbuild/builders/c/__init__.py
+++ b/lib/fbuild/builders/c/__init__.py
@@ -170,9 +170,15 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
     @fbuild.builders.platform.auto_platform_options()
     def run(self, cmd, *args, runtime_libpaths=[], **kwargs):
         """Executes a c executable."""
-        exe = cmd[0]
+        # The libraries may need other libraries in turn.
+        libpaths = []
+        libs = list(cmd[0].libs)
+        for lib in libs:
+            libs.extend(l for l in getattr(lib, 'libs', ()) if l not in libs)
+            libpaths.append(lib.parent)
+
         return self.ctx.execute(cmd, *args,
-            runtime_libpaths=runtime_libpaths + [l.parent for l in exe.libs],
+            runtime_libpaths=runtime_libpaths + libpaths,
             **kwargs)
 
 
-- 
2.43.0


From c986b80e787fbe040cf7d64a5eb03840c24ee47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 56/74] fix: gcc: objects with brackets in their names were
 left out of a library

---
 lib/fbuild/builders/c/gcc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index b35700b..c15ba01 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -65,7 +65,7 @@ class Ar(fbuild.db.PersistentObject):
         dst = dst.parent / prefix + dst.name + suffix
         dst.parent.makedirs()
 
-        srcs = list(Path.globall(srcs))
+        srcs = [Path(src) for src in srcs]
 
         # Objects that are not in the library any more must not stay in it.
         if dst.exists():
-- 
2.43.0


From e60cd437ba3dddbc1fd3cef8c98f4fbac47db5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 57/74] fix: builders: a change of a library needed by a
 library didn't link the program again

---
 lib/fbuild/builders/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/fbuild/builders/__init__.py b/lib/fbuild/builders/__init__.py
index 2764e62..a7f8cd0 100644
--- a/lib/fbuild/builders/__init__.py
+++ b/lib/fbuild/builders/__init__.py
@@ -164,6 +164,16 @@ class AbstractCompiler(fbuild.db.PersistentObject):
 
         return objs
 
+    def _add_indirect_libs(self, libs):
+        """Register the libraries that the L{libs} need, as they are linked
+        as well."""
+        indirect = []
+        for lib in chain(libs, indirect):
+            indirect.extend(l for l in getattr(lib, 'libs', ())
+                if l not in indirect)
+
+        self.ctx.db.add_external_dependencies_to_call(srcs=indirect)
+
     # --------------------------------------------------------------------------
 
     def tempfile(self, code):
@@ -201,6 +211,7 @@ class AbstractLibLinker(AbstractCompiler):
             libs:fbuild.db.SRCS=(),
             **kwargs) -> fbuild.db.DST:
         """Link compiled files into a library and caches the results."""
+        self._add_indirect_libs(libs)
         return self.uncached_link_lib(dst, srcs, *args, libs=libs, **kwargs)
 
     @abc.abstractmethod
@@ -273,6 +284,7 @@ class AbstractExeLinker(AbstractCompiler, AbstractRunner):
             libs:fbuild.db.SRCS=(),
             **kwargs) -> fbuild.db.DST:
         """Link compiled files into an executable."""
+        self._add_indirect_libs(libs)
         return self.uncached_link_exe(dst, srcs, *args, libs=libs, **kwargs)
 
     @abc.abstractmethod
-- 
2.43.0


From f0a01cf4a0a731b05f7ce388da1125074c490988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 58/74] fix: config: comparing two functions raised
 AttributeError

---
 lib/fbuild/config/c/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/config/c/__init__.py b/lib/fbuild/config/c/__init__.py
index 53de6a0..31c4020 100644
--- a/lib/fbuild/config/c/__init__.py
+++ b/lib/fbuild/config/c/__init__.py
@@ -25,7 +25,7 @@ class Function:
         return \
             type(self) is type(other) and \
             self.return_type == other.return_type and \
-            self.args == other.size
+            self.args == other.args
 
     def __hash__(self):
         return hash((self.__class__, self.return_type, self.args))
-- 
2.43.0


From 42d436678f0b367d0e476435362f8d9be3eaf602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 59/74] fix: config: the repr of a structure raised NameError

---
 lib/fbuild/config/c/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/config/c/__init__.py b/lib/fbuild/config/c/__init__.py
index 31c4020..76de303 100644
--- a/lib/fbuild/config/c/__init__.py
+++ b/lib/fbuild/config/c/__init__.py
@@ -102,7 +102,7 @@ class Struct:
     def __repr__(self):
         return '%s(%s)' % (
             self.__class__.__name__,
-            ', ' + ', '.join(repr(m) for m in self.members) if members else '',
+            ', '.join(repr(m) for m in self.members),
         )
 
     def __eq__(self, other):
-- 
2.43.0


From 9874e90fd6a9d21cf0f237a77f10d6e3843c9b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 60/74] fix: config: functions taking pointers to functions
 were reported missing

---
 lib/fbuild/config/c/__init__.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/lib/fbuild/config/c/__init__.py b/lib/fbuild/config/c/__init__.py
index 76de303..0662010 100644
--- a/lib/fbuild/config/c/__init__.py
+++ b/lib/fbuild/config/c/__init__.py
@@ -290,6 +290,22 @@ class function_test(AbstractFieldDescriptor):
             ', '.join(self.args),
         )
 
+    def format_variable(self, type, name):
+        """Declare a variable. The name goes inside of the type of a pointer to
+        a function."""
+        if isinstance(type, Function):
+            return '%s (*%s)(%s)' % (
+                type.return_type,
+                name,
+                ', '.join(self.format_variable(a, '') for a in type.args),
+            )
+
+        if '(*)' in type:
+            return type.replace('(*)', '(*%s)' % name, 1)
+
+        base, bracket, size = type.partition('[')
+        return '%s %s%s' % (base, name, bracket + size)
+
     def format_call(self, args):
         return '%s(%s)' % (
             self.name,
@@ -311,19 +327,13 @@ class function_test(AbstractFieldDescriptor):
             for i, arg in enumerate(self.args):
                 # we need to filter out void arguments
                 if arg != 'void':
-                    if isinstance(arg, Function):
-                        args.append('%s (arg_%d)(%s)' % (
-                            arg.return_type,
-                            i,
-                            ', '.join(arg.args)))
-                        defs.append('%s arg_%d;' % (arg, i))
-                    else:
-                        args.append('arg_%d' % i)
-                        defs.append('%s arg_%d;' % (arg, i))
+                    args.append('arg_%d' % i)
+                    defs.append(self.format_variable(arg, 'arg_%d' % i) + ';')
         call = self.format_call(args)
 
         if self.return_type != 'void':
-            call = '%s res = %s' % (self.return_type, call)
+            call = '%s = %s' % (
+                self.format_variable(self.return_type, 'res'), call)
 
         return textwrap.dedent('''
             %s
-- 
2.43.0


From 7576693af39697608b60c4e34931f0941b7ed70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 61/74] fix: config: functions that crash with uninitialised
 arguments were reported missing

---
 lib/fbuild/config/c/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/config/c/__init__.py b/lib/fbuild/config/c/__init__.py
index 0662010..8405dbd 100644
--- a/lib/fbuild/config/c/__init__.py
+++ b/lib/fbuild/config/c/__init__.py
@@ -335,9 +335,14 @@ class function_test(AbstractFieldDescriptor):
             call = '%s = %s' % (
                 self.format_variable(self.return_type, 'res'), call)
 
+        if self.default_args is None and self.stdout is None:
+            # There are no arguments that it could be called with, so only
+            # check that it compiles and links.
+            call = 'if (argc > 1) { %s; }' % call
+
         return textwrap.dedent('''
             %s
-            int main() {
+            int main(int argc, char** argv) {
                 %s
                 %s;
                 return 0;
-- 
2.43.0


From 56a9e0b4e1c5bfc88d731fd3afbea97155c5c53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 62/74] fix: path: probes running in parallel wrote their
 objects and programs to the same files

addroot left out the directories of absolute paths below the root, such as those of the temporary files.
---
 lib/fbuild/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/fbuild/path.py b/lib/fbuild/path.py
index d2e9e68..89e1e73 100644
--- a/lib/fbuild/path.py
+++ b/lib/fbuild/path.py
@@ -122,6 +122,9 @@ class Path(str):
         """
         if not self.startswith(root):
             if os.path.isabs(self):
+                if self.startswith(os.path.join(os.path.abspath(root), '')):
+                    # It is below the root already.
+                    return Path(self)
                 path = os.path.split(self)[1]
             else:
                 path = self
-- 
2.43.0


From 98d607c7f83dba5c8654b73bb4c37b040eb3d8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 63/74] fix: config: a test got the answer of another one with
 the same name or of an earlier version

---
 lib/fbuild/config/c/__init__.py   | 19 ++++++++++++++-----
 lib/fbuild/config/cxx/__init__.py |  5 +++++
 lib/fbuild/db/__init__.py         |  5 +++--
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/lib/fbuild/config/c/__init__.py b/lib/fbuild/config/c/__init__.py
index 8405dbd..a662fa8 100644
--- a/lib/fbuild/config/c/__init__.py
+++ b/lib/fbuild/config/c/__init__.py
@@ -135,6 +135,18 @@ class cacheproperty(fbuild.db.cacheproperty):
         cls.__field_names__.append(key)
         setattr(cls, key, self)
 
+    def call(self, instance):
+        if not isinstance(self.method, AbstractFieldDescriptor):
+            return super().call(instance)
+
+        # Classes of the same name share the names of their calls, and a test
+        # can be changed, so tell the calls apart by the test and the header.
+        header = None
+        if not isinstance(self.method, header_test):
+            header = getattr(instance, 'header', None)
+
+        return super().call(instance, self.method, header)
+
 # ------------------------------------------------------------------------------
 
 class AbstractFieldDescriptor:
@@ -162,16 +174,13 @@ class AbstractFieldDescriptor:
             self.name = key
         cacheproperty(self).contribute_to_class(cls, key)
 
-    def __call__(self, instance):
+    def __call__(self, instance, test, header):
         # We couldn't find a previous call to this function, so regenerate it.
         if not isinstance(self, header_test) and hasattr(instance, 'header'):
             # If the header is undefined in the instance then don't try to
             # compute this function.
-            header = instance.header
             if header is None:
                 return None
-        else:
-            header = None
         formatted_test = self.test if self.test else self.format_test(header)
 
         if isinstance(self, header_test):
@@ -642,7 +651,7 @@ class Test(fbuild.config.Test, metaclass=TestMeta):
                     yield field.method.name, f
 
     def __eq__(self, other):
-        return super().__eq__(other) and \
+        return type(self) is type(other) and \
             self.builder == other.builder and \
             self.platform == other.platform and \
             self.flags == other.flags and \
diff --git a/lib/fbuild/config/cxx/__init__.py b/lib/fbuild/config/cxx/__init__.py
index 716ec94..f170eb5 100644
--- a/lib/fbuild/config/cxx/__init__.py
+++ b/lib/fbuild/config/cxx/__init__.py
@@ -66,6 +66,11 @@ class template_test(c.AbstractFieldDescriptor):
 
         instance.ctx.logger.failed()
 
+    def __eq__(self, other):
+        return super().__eq__(other) and self.test_types == other.test_types
+
+    __hash__ = c.AbstractFieldDescriptor.__hash__
+
 # ------------------------------------------------------------------------------
 
 class TestMeta(c.TestMeta):
diff --git a/lib/fbuild/db/__init__.py b/lib/fbuild/db/__init__.py
index 564b43d..b1a7e41 100644
--- a/lib/fbuild/db/__init__.py
+++ b/lib/fbuild/db/__init__.py
@@ -254,7 +254,8 @@ class cacheproperty:
         result, srcs, dsts = self.call(instance)
         return result
 
-    def call(self, instance):
+    def call(self, instance, *args):
         _check_ctx(instance.ctx, instance.__class__.__name__,
                    'cache<member>.call')
-        return instance.ctx.db.call(types.MethodType(self.method, instance))
+        return instance.ctx.db.call(types.MethodType(self.method, instance),
+            *args)
-- 
2.43.0


From dc0bf06f4967c4023e10cc8bde69a8f89ea2feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 64/74] fix: config: fields inherited twice were listed twice

---
 lib/fbuild/config/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/config/__init__.py b/lib/fbuild/config/__init__.py
index 1dd815a..637ee98 100644
--- a/lib/fbuild/config/__init__.py
+++ b/lib/fbuild/config/__init__.py
@@ -39,7 +39,8 @@ class TestMeta(fbuild.db.PersistentMeta):
         for parent in parents:
             if hasattr(parent, '__field_names__'):
                 for key in parent.__field_names__:
-                    if key not in attrs:
+                    if key not in attrs and \
+                            key not in new_class.__field_names__:
                         new_class.__field_names__.append(key)
 
         # add the fields in the order that they were declared
-- 
2.43.0


From e7034b616209e609e93cef5b546f2923a875c9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 65/74] fix: config: tests of C++ structures raised NameError

---
 lib/fbuild/config/cxx/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/config/cxx/__init__.py b/lib/fbuild/config/cxx/__init__.py
index f170eb5..d8dff4a 100644
--- a/lib/fbuild/config/cxx/__init__.py
+++ b/lib/fbuild/config/cxx/__init__.py
@@ -18,7 +18,7 @@ class struct_test(c.struct_test):
         self.__name__ = key
         if self.name is None:
             self.name = key
-        cacheproperty(self).contribute_to_class(cls, key)
+        c.cacheproperty(self).contribute_to_class(cls, key)
 
 variable_test = c.variable_test
 
-- 
2.43.0


From ba13a615762ddc4adb08a9a3e11ed0037ed31816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 66/74] fix: config: sizes of huge types were cut off

---
 lib/fbuild/config/c/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/config/c/__init__.py b/lib/fbuild/config/c/__init__.py
index a662fa8..1efe479 100644
--- a/lib/fbuild/config/c/__init__.py
+++ b/lib/fbuild/config/c/__init__.py
@@ -426,8 +426,8 @@ class type_test(AbstractFieldDescriptor):
             typedef %s type;
             struct TEST { char c; type mem; };
             int main() {
-                printf("%%d\\n", (int)offsetof(struct TEST, mem));
-                printf("%%d\\n", (int)sizeof(type));
+                printf("%%lu\\n", (unsigned long)offsetof(struct TEST, mem));
+                printf("%%lu\\n", (unsigned long)sizeof(type));
                 return 0;
             }
         ''') % ('' if header is None else '#include <%s>' % header, self.name)
@@ -455,8 +455,8 @@ class int_type_test(AbstractFieldDescriptor):
             typedef %s type;
             struct TEST { char c; type mem; };
             int main() {
-                printf("%%d\\n", (int)offsetof(struct TEST, mem));
-                printf("%%d\\n", (int)sizeof(type));
+                printf("%%lu\\n", (unsigned long)offsetof(struct TEST, mem));
+                printf("%%lu\\n", (unsigned long)sizeof(type));
                 printf("%%d\\n", (type)~3 < (type)0);
                 return 0;
             }
-- 
2.43.0


From e0169a89bd724ebd1ab6c19c550fbe8ab65ca5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 67/74] fix: config: the namespace of a C++ test was added
 twice to inherited fields, or not at all to new ones

---
 lib/fbuild/config/cxx/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/config/cxx/__init__.py b/lib/fbuild/config/cxx/__init__.py
index d8dff4a..29b68ae 100644
--- a/lib/fbuild/config/cxx/__init__.py
+++ b/lib/fbuild/config/cxx/__init__.py
@@ -75,14 +75,16 @@ class template_test(c.AbstractFieldDescriptor):
 
 class TestMeta(c.TestMeta):
     def __new__(cls, name, bases, attrs):
-        namespace = attrs.pop('namespace', None)
-
         new_class = super().__new__(cls, name, bases, attrs)
+        namespace = getattr(new_class, 'namespace', None)
 
         if namespace is not None:
             for name, field in new_class.fields():
-                # Macros shouldn't get the namespace prepended.
-                if not isinstance(field.method, macro_test):
+                # The inherited fields already have theirs, and macros
+                # shouldn't get the namespace prepended.
+                if name in attrs and \
+                        isinstance(field.method, c.AbstractFieldDescriptor) and \
+                        not isinstance(field.method, macro_test):
                     field.method.name = namespace + '::' + field.method.name
 
         return new_class
-- 
2.43.0


From 18b8f3ab55e9f2b3e60d1b6b8fca555e9aaf7aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 68/74] fix: db: a class of a recorded value that is gone
 failed every later build

---
 lib/fbuild/db/pickle_backend.py |  4 ++--
 lib/fbuild/db/sqlite_backend.py | 13 +++++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/db/pickle_backend.py b/lib/fbuild/db/pickle_backend.py
index fb789b7..709a156 100644
--- a/lib/fbuild/db/pickle_backend.py
+++ b/lib/fbuild/db/pickle_backend.py
@@ -20,8 +20,8 @@ class PickleBackend(fbuild.db.cache_backend.CacheBackend):
                 unpickler = fbuild.db.backend.Unpickler(self._ctx, f)
                 try:
                     data = unpickler.load()
-                except AttributeError:
-                    # Likely a moved member. Just start clean!
+                except Exception:
+                    # Likely a moved or changed member. Just start clean!
                     super()._connect()
                     return
 
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 28fba2c..adf8a20 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -309,10 +309,19 @@ class SqliteBackend(fbuild.db.backend.Backend):
                 FROM Call
                 WHERE fun_id=?
                 ''', (fun_id,)):
-            old_bound = self._pickle_loads(old_bound)
+            try:
+                old_bound = self._pickle_loads(old_bound)
+            except Exception:
+                # Likely a moved or changed member, so no argument can be equal
+                # to the old one.
+                continue
 
             if bound == old_bound:
-                old_result = self._pickle_loads(old_result)
+                try:
+                    old_result = self._pickle_loads(old_result)
+                except Exception:
+                    # The result has to be computed again.
+                    return True, call_id, None
 
                 return False, call_id, old_result
         else:
-- 
2.43.0


From f9551892bf5145cfe9fc7f7bd8f55199d7d0bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:59 +0000
Subject: [PATCH 69/74] fix: ocaml: an outdated copy of a source in the build
 directory failed the build

---
 lib/fbuild/builders/ocaml/__init__.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 8f72bff..e643f44 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -105,10 +105,17 @@ class Ocamldep(fbuild.db.PersistentObject):
                         continue
 
                 # We found it! Add that file to the dependencies.
-                if include is None:
-                    deps.append(Path(path))
-                else:
-                    deps.append(include / path)
+                path = Path(path) if include is None else include / path
+
+                # Sources are copied into the buildroot when they are compiled.
+                # The copy may be out of date, so use the original if there is
+                # one.
+                original = path.removeroot(self.ctx.buildroot + os.sep)
+                if original.exists():
+                    path = original
+
+                if path not in deps:
+                    deps.append(path)
                 found = True
 
             return found
-- 
2.43.0


From d9d1a0b54fbe99e960bf729b5263a4bee5fe4553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 70/74] fix: ocaml: interface files that were added or removed
 were not noticed

---
 lib/fbuild/builders/ocaml/__init__.py | 69 +++++++++++++++++----------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index e643f44..be9428e 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -64,11 +64,11 @@ class Ocamldep(fbuild.db.PersistentObject):
         else:
             return tuple(s.decode().split())
 
-    @fbuild.db.cachemethod
-    def source_dependencies(self, src:fbuild.db.SRC, *,
+    def source_dependencies(self, src, *,
             includes=(),
-            **kwargs) -> fbuild.db.DSTS:
+            **kwargs):
         """Compute the source files this ocaml file depends on."""
+        # This isn't cached, as the result also depends on which files exist.
         deps = []
 
         def f(module, include):
@@ -367,10 +367,10 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
         self._add_compile_dependencies(dst, src,
             includes=includes,
             preprocessor=preprocessor,
-            flags=ocamldep_flags)
+            flags=ocamldep_flags,
+            buildroot=kwargs.get('buildroot'))
         return dst
 
-
     def uncached_compile(self, src, dst=None, *args,
             buildroot=None,
             pre_flags=(),
@@ -402,15 +402,23 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
             buildroot=buildroot,
             *args, **kwargs)
 
-    def _add_compile_dependencies(self, dst, src, **kwargs):
+    def _add_compile_dependencies(self, dst, src, *, buildroot=None, **kwargs):
         # If the .mli file doesn't exist, ocaml creates one from the .ml file
         if src.endswith('.ml') and not src.replaceext('.mli').exists():
             dsts = (dst.replaceext('.cmi'),)
         else:
             dsts = ()
 
+        # The compiled interfaces have been used as well. They also change when
+        # an .mli file is added or removed.
+        srcs = self.scan(src, **kwargs)
+        cmis = [dep.addroot(buildroot or self.ctx.buildroot) for dep in srcs]
+        if src.endswith('.ml'):
+            cmis.append(dst)
+        cmis = {cmi.replaceext('.cmi') for cmi in cmis}
+
         self.ctx.db.add_external_dependencies_to_call(
-            srcs=self.scan(src, **kwargs),
+            srcs=srcs.union(cmi for cmi in cmis if cmi.exists()),
             dsts=dsts)
 
     # --------------------------------------------------------------------------
@@ -501,6 +509,15 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
                 # the includes.
                 includes.add(self.ctx.buildroot)
 
+        # Remove the copies of .mli files that don't exist anymore, or ocaml
+        # would still use their interface.
+        for src in srcs:
+            mli = src.replaceext('.mli')
+            copy = mli.addroot(buildroot)
+            if src.endswith('.ml') and not mli.exists() and \
+                    copy not in srcs and copy.exists():
+                copy.remove()
+
         # Add additional source dependencies to the call.
         deps = set()
         for src in srcs:
@@ -654,25 +671,28 @@ class BytecodeBuilder(Builder):
             lib_suffix=lib_suffix,
             **kwargs)
 
-    @fbuild.db.cachemethod
-    def scan(self, src:fbuild.db.SRC, *,
+    def scan(self, src, *,
             includes=(),
-            **kwargs) -> fbuild.db.DSTS:
+            **kwargs):
         """Recursively compute all the source files this ocaml file depends
         on."""
-        lookup = {}
-        for dep in self.ocamldep.source_dependencies(src,
-                includes=includes,
-                **kwargs):
-            base, ext = dep.splitext()
-            if ext == '.mli' or base not in lookup:
-                lookup[base] = dep
-
         deps = set()
-        for dep in lookup.values():
-            deps.add(dep)
-            d = self.scan(dep, includes=includes, **kwargs)
-            deps.update(d)
+        def f(src):
+            lookup = {}
+            for dep in self.ocamldep.source_dependencies(src,
+                    includes=includes,
+                    **kwargs):
+                base, ext = dep.splitext()
+                if ext == '.mli' or base not in lookup:
+                    lookup[base] = dep
+
+            for dep in lookup.values():
+                # Don't scan this dependency if we've already scanned it.
+                if dep not in deps:
+                    deps.add(dep)
+                    f(dep)
+
+        f(src)
 
         return deps
 
@@ -744,10 +764,9 @@ class Ocamlopt(Builder):
 
     # --------------------------------------------------------------------------
 
-    @fbuild.db.cachemethod
-    def scan(self, src:fbuild.db.SRC, *,
+    def scan(self, src, *,
             includes=(),
-            **kwargs) -> fbuild.db.DSTS:
+            **kwargs):
         """Recursively compute all the source files this ocaml file depends
         on."""
         deps = set()
-- 
2.43.0


From 3c8d8c8cbbd50c7bb6e70e6654e9c71267a069a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 71/74] fix: ocaml: compiling a file to bytecode and native
 code raised NameError

---
 lib/fbuild/builders/ocaml/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index be9428e..1ea2ceb 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -959,16 +959,16 @@ class Ocaml(fbuild.builders.AbstractCompilerBuilder):
 
     # --------------------------------------------------------------------------
 
-    def _compile(self, bcompile, ncompile, *args, **kwargs):
+    def _compile(self, bcompile, ncompile, src, *args, **kwargs):
         """Actually compile the source using the bytecode and native
         compilers."""
-        bobj = bcompile(*args, **kwargs)
+        bobj = bcompile(src, *args, **kwargs)
 
         if src.endswith('.mli'):
             # We only need to generate the interface once.
             nobj = bobj
         else:
-            nobj = ncompile(*args, **kwargs)
+            nobj = ncompile(src, *args, **kwargs)
 
         return self.Tuple(bobj, nobj)
 
-- 
2.43.0


From d902c2779c00839e99da9e28ebac80b0b665f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 72/74] fix: ocaml: link_lib and link_exe raised TypeError
 without includes

---
 lib/fbuild/builders/ocaml/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 1ea2ceb..71eef12 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -441,7 +441,10 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
             libs=libs,
             **kwargs)
 
-    def _link(self, function, dst, srcs, *args, includes, libs, **kwargs):
+    def _link(self, function, dst, srcs, *args,
+            includes=(),
+            libs=(),
+            **kwargs):
         dst = function(dst, srcs, *args,
             includes=includes,
             libs=libs,
-- 
2.43.0


From f9a3f3cddca047d5a43b1d27c0d408bdabb6d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 73/74] fix: ocaml: a file using a packed module was not
 compiled again when the pack changed

---
 lib/fbuild/builders/ocaml/__init__.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 71eef12..1b64dea 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -71,6 +71,10 @@ class Ocamldep(fbuild.db.PersistentObject):
         # This isn't cached, as the result also depends on which files exist.
         deps = []
 
+        if not src.endswith(('.ml', '.mli')):
+            # Compiled files don't depend on any sources.
+            return deps
+
         def f(module, include):
             # On case-insensitive but case-preserving filesystems, we need to
             # be careful on how we deal with finding OCaml dependencies. Since
@@ -118,6 +122,15 @@ class Ocamldep(fbuild.db.PersistentObject):
                     deps.append(path)
                 found = True
 
+            if not found and include is not None:
+                # There may only be the compiled module, such as for packs.
+                for suffix in '.cmi', '.cmx':
+                    for name in (module[0].lower() + module[1:],
+                            module[0].upper() + module[1:]):
+                        if name + suffix in dirs:
+                            deps.append(include / (name + suffix))
+                            break
+
             return found
 
         modules = self.modules(src, **kwargs)
@@ -686,6 +699,9 @@ class BytecodeBuilder(Builder):
                     includes=includes,
                     **kwargs):
                 base, ext = dep.splitext()
+                if ext == '.cmx':
+                    # The native code doesn't matter for bytecode.
+                    continue
                 if ext == '.mli' or base not in lookup:
                     lookup[base] = dep
 
-- 
2.43.0


From f2e851c81c2edf5eafa6f8295d224ea3c03da7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 74/74] fix: ocaml: the native object of a pack was not built
 again when it was removed

---
 lib/fbuild/builders/ocaml/__init__.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 1b64dea..cb29278 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -595,12 +595,15 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
             pre_flags=pre_flags,
             **kwargs)
 
+        self._add_pack_dependencies(dst, objs)
+
+        return dst
+
+    def _add_pack_dependencies(self, dst, objs):
         self.ctx.db.add_external_dependencies_to_call(
             srcs=objs + [obj.replaceext('.cmi') for obj in objs],
             dsts=[dst, dst.replaceext('.cmi')])
 
-        return dst
-
     # --------------------------------------------------------------------------
 
     def build_lib(self, dst, srcs:fbuild.db.SRCS, *args,
@@ -842,6 +845,14 @@ class Ocamlopt(Builder):
         self.ctx.db.add_external_dependencies_to_call(
             dsts=(dst.replaceext(self.native_obj_suffix),))
 
+    def _add_pack_dependencies(self, dst, objs):
+        super()._add_pack_dependencies(dst, objs)
+
+        # The code of the pack is in a native object.
+        self.ctx.db.add_external_dependencies_to_call(
+            srcs=[obj.replaceext(self.native_obj_suffix) for obj in objs],
+            dsts=[dst.replaceext(self.native_obj_suffix)])
+
     def _add_link_dependencies(self, dst, srcs, includes, libs):
         super()._add_link_dependencies(dst, srcs, includes, libs)
 
-- 
2.43.0

