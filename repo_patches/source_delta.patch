From 27e5c8bcb577ac3e9d35634a5788b9f4c23173a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 01/29] fix: rejected uploads and pushes must not change
 metadata

The transaction of a request answered with 409, 400 or 502 was still
committed with the metadata and the files stored up to that point.
---
 server/devpi_server/views.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 32d85ce..a668249 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1066,9 +1066,11 @@ class PyPIView:
             try:
                 results.extend(self._push_links(links, target_stage, name, version))
             except target_stage.NonVolatile as e:
+                self.xom.keyfs.tx.doom()
                 apireturn(409, "%s already exists in non-volatile index" % (
                           e.link.basename,))
             except BadGateway as e:
+                self.xom.keyfs.tx.doom()
                 return apireturn(502, e.args[0])
             apireturn(200, result=results, type="actionlog")
         else:
@@ -1261,6 +1263,7 @@ class PyPIView:
                         request, 200,
                         "Upload of identical file to non volatile index.",
                         level="info")
+                self.xom.keyfs.tx.doom()
                 abort_submit(
                     request, 409,
                     "%s already exists in non-volatile index" % (
@@ -1280,6 +1283,7 @@ class PyPIView:
                 link = stage.store_doczip(
                     project, version, content_file, hashes=hashes)
             except stage.MissesVersion as e:
+                self.xom.keyfs.tx.doom()
                 abort_submit(
                     request, 400,
                     "%s" % e)
@@ -1289,6 +1293,7 @@ class PyPIView:
                         request, 200,
                         "Upload of identical file to non volatile index.",
                         level="info")
+                self.xom.keyfs.tx.doom()
                 abort_submit(
                     request, 409,
                     "%s already exists in non-volatile index" % (
-- 
2.43.0


From c6e1b58fc83f17780913907b5ae48b12520d54b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 02/29] fix: deleting an unknown project must not create a key
 for it

---
 server/devpi_server/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 6605057..036a2aa 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1312,9 +1312,9 @@ class PrivateStage(BaseStage):
         project = normalize_name(project)
         for version in list(self.key_projversions(project).get()):
             self.del_versiondata(project, version, cleanup=False)
-        self._regen_simplelinks(project)
         with self.key_projects.update() as projects:
             projects.remove(project)
+        self._regen_simplelinks(project)
         threadlog.info("deleting project %s", project)
         self.key_projversions(project).delete()
 
-- 
2.43.0


From 061b21a239c01afc8b690263da0cccd18ddd3ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 03/29] fix: tox result for a deleted file must answer 404
 instead of 500

---
 server/devpi_server/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 036a2aa..aba1d5e 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -808,7 +808,7 @@ class BaseStage(object):
 
     def get_link_from_entrypath(self, entrypath):
         entry = self.xom.filestore.get_file_entry(entrypath)
-        if entry.project is None:
+        if entry is None or entry.project is None:
             return None
         linkstore = self.get_linkstore_perstage(entry.project,
                                                 entry.version)
-- 
2.43.0


From b1c52dd1db16b63fb07fbbe35b4fac2c0de809c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:12 +0000
Subject: [PATCH 04/29] fix: remove deleted files only after the transaction is
 committed

A crash or an error between the removal of the files and the commit
lost the content of files which still exist, and if one of them was
added in the last transaction, then the server refused to start.
---
 server/devpi_server/keyfs_sqlite.py    | 13 +++++++++++--
 server/devpi_server/keyfs_sqlite_fs.py | 12 ++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/server/devpi_server/keyfs_sqlite.py b/server/devpi_server/keyfs_sqlite.py
index 5a0a500..fd9dfc2 100644
--- a/server/devpi_server/keyfs_sqlite.py
+++ b/server/devpi_server/keyfs_sqlite.py
@@ -20,6 +20,7 @@ import contextlib
 import os
 import shutil
 import sqlite3
+import threading
 import time
 
 
@@ -347,6 +348,10 @@ class Connection(BaseConnection):
         self.dirty_files.clear()
         return (files_commit, files_del)
 
+    def _remove_deleted_files(self, files_del):
+        # already done by _write_dirty_files as part of the transaction
+        return
+
     def _drop_dirty_files(self):
         return
 
@@ -370,6 +375,7 @@ class BaseStorage(object):
         self.basedir = basedir
         self.sqlpath = self.basedir.join(self.db_filename)
         self._notify_on_commit = notify_on_commit
+        self._commit_lock = threading.Lock()
         changelog_cache_size = max(1, cache_size // 20)
         relpath_cache_size = max(1, cache_size - changelog_cache_size)
         self._changelog_cache = LRUCache(changelog_cache_size)  # is thread safe
@@ -652,8 +658,11 @@ class Writer:
         rel_renames = self.conn._get_rel_renames()
         entry = (self.changes, rel_renames)
         self.conn.write_changelog_entry(commit_serial, entry)
-        (files_commit, files_del) = self.conn._write_dirty_files(rel_renames)
-        self.conn.commit()
+        # no other writer may add files while ours are removed
+        with self.storage._commit_lock:
+            (files_commit, files_del) = self.conn._write_dirty_files(rel_renames)
+            self.conn.commit()
+            self.conn._remove_deleted_files(files_del)
         self.storage.last_commit_timestamp = time.time()
         return LazyChangesFormatter(self.changes, files_commit, files_del)
 
diff --git a/server/devpi_server/keyfs_sqlite_fs.py b/server/devpi_server/keyfs_sqlite_fs.py
index e571271..0a8e338 100644
--- a/server/devpi_server/keyfs_sqlite_fs.py
+++ b/server/devpi_server/keyfs_sqlite_fs.py
@@ -8,6 +8,7 @@ from .filestore_fs import LazyChangesFormatter
 from .filestore_fs import check_pending_renames
 from .filestore_fs import commit_renames
 from .filestore_fs import make_rel_renames
+from .filestore_fs import tmpsuffix_for_path
 from .fileutil import get_write_file_ensure_dir, loads
 from hashlib import sha256
 from zope.interface import alsoProvides
@@ -152,9 +153,15 @@ class Connection(BaseConnection):
         # - call check_pending_renames which will replay any remaining
         #   renames from the changelog entry, and
         # - initialize next_serial from the max committed serial + 1
-        result = commit_renames(basedir, rel_renames)
+        # The deleted files must stay until the transaction is committed.
+        (files_commit, _) = commit_renames(
+            basedir, [x for x in rel_renames if tmpsuffix_for_path(x) is not None])
+        files_del = [x for x in rel_renames if tmpsuffix_for_path(x) is None]
         self.dirty_files.clear()
-        return result
+        return (files_commit, files_del)
+
+    def _remove_deleted_files(self, files_del):
+        commit_renames(str(self.storage.basedir), files_del)
 
     def _drop_dirty_files(self):
         drop_dirty_files(self.dirty_files)
@@ -163,6 +170,7 @@ class Connection(BaseConnection):
     def commit_files_without_increasing_serial(self):
         rel_renames = self._get_rel_renames()
         (files_commit, files_del) = self._write_dirty_files(rel_renames)
+        self._remove_deleted_files(files_del)
         if files_commit or files_del:
             threadlog.debug(
                 "wrote files without increasing serial: %s",
-- 
2.43.0


From 49bf9eed27fc97e8d2f7c0fc35f7c9fee6572d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:12 +0000
Subject: [PATCH 05/29] fix: doomed transactions must drop their temporary
 files

---
 server/devpi_server/keyfs.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/server/devpi_server/keyfs.py b/server/devpi_server/keyfs.py
index ed5205b..7213cbf 100644
--- a/server/devpi_server/keyfs.py
+++ b/server/devpi_server/keyfs.py
@@ -715,9 +715,7 @@ class Transaction(object):
     def commit(self):
         if self.doomed:
             threadlog.debug("closing doomed transaction")
-            result = self._close()
-            self._run_listeners(self._finished_listeners)
-            return result
+            return self.rollback()
         if not self.write:
             result = self._close()
             self._run_listeners(self._finished_listeners)
-- 
2.43.0


From 695b88af41e00abdbe57452d8e3f766e1c2fd33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:50 +0000
Subject: [PATCH 06/29] fix: retry replicating files after an error while
 streaming them

The importer only recorded the error and returned as if it had succeeded,
so the file was never fetched again.
---
 server/devpi_server/replica.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/replica.py b/server/devpi_server/replica.py
index 765d38a..91d2c66 100644
--- a/server/devpi_server/replica.py
+++ b/server/devpi_server/replica.py
@@ -1076,7 +1076,10 @@ class FileReplicationThread:
                     url=r.url,
                     message=str(err),
                     relpath=entry.relpath))
-                return
+                if isinstance(err, ChecksumError):
+                    return
+                # and raise for retrying later
+                raise
 
             # in case there were errors before, we can now remove them
             self.shared_data.errors.remove(entry)
-- 
2.43.0


From 52958fdbc831db1801ea5f63832838fe13f7a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:22 +0000
Subject: [PATCH 07/29] fix: replica must remove deleted files it missed while
 it was down

Files whose deletion was imported, but not processed before the replica
stopped, stayed on disk forever, because the initial queue skipped them.
---
 server/devpi_server/replica.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/server/devpi_server/replica.py b/server/devpi_server/replica.py
index 91d2c66..f13d5c3 100644
--- a/server/devpi_server/replica.py
+++ b/server/devpi_server/replica.py
@@ -1168,8 +1168,12 @@ class InitialQueueThread(object):
             relpaths = tx.iter_relpaths_at(keys, tx.at_serial)
             for item in relpaths:
                 self.thread.exit_if_shutdown()
+                key = keyfs.get_key_instance(item.keyname, item.relpath)
+                entry = FileEntry(key, item.value)
                 if item.value is None:
-                    continue
+                    if not entry.file_exists():
+                        continue
+                    # the replica was stopped before removing the file
                 if self.shared_data.queue.qsize() > self.shared_data.num_threads:
                     # let the queue be processed before filling it further
                     self.shared_data.wait()
@@ -1179,9 +1183,8 @@ class InitialQueueThread(object):
                         "Processed a total of %s files (serial %s/%s) and queued %s so far.",
                         processed, tx.at_serial - item.serial, tx.at_serial, queued)
                 processed = processed + 1
-                key = keyfs.get_key_instance(item.keyname, item.relpath)
-                entry = FileEntry(key, item.value)
-                if entry.file_exists() or not entry.last_modified:
+                if item.value is not None and (
+                        entry.file_exists() or not entry.last_modified):
                     continue
                 index_type = self.shared_data.get_index_type_for(key, None)
                 # note the negated serial for the PriorityQueue
-- 
2.43.0


From e8c57a41648c25942dd467bfe84f6a01176f1d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:08 +0000
Subject: [PATCH 08/29] fix: replica must decide about files by their current
 state

The download queue handles the newest change first and in several threads.
A deletion handled after a later upload of the same file removed the
content for good, and a download finishing after the deletion left the
content of the deleted file on disk.
---
 server/devpi_server/replica.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/server/devpi_server/replica.py b/server/devpi_server/replica.py
index f13d5c3..fa170c3 100644
--- a/server/devpi_server/replica.py
+++ b/server/devpi_server/replica.py
@@ -958,6 +958,19 @@ class FileReplicationThread:
             f.devpi_srcpath = path
         return f
 
+    def is_deleted(self, conn, relpath):
+        """ Returns True if the file is deleted at the current serial.
+
+        The queue isn't processed in order of serials, so there might
+        have been later changes to the file.
+        """
+        try:
+            (_, _, val) = conn.get_relpath_at(
+                relpath, conn.last_changelog_serial)
+        except KeyError:
+            return True
+        return val is None
+
     def importer(self, serial, key, val, back_serial, session):
         threadlog.debug("FileReplicationThread.importer for %s, %s", key, val)
         keyfs = self.xom.keyfs
@@ -967,7 +980,9 @@ class FileReplicationThread:
             if back_serial >= 0:
                 with keyfs.get_connection(write=True) as conn:
                     # file was deleted, still might never have been replicated
-                    if conn.io_file_exists(entry._storepath):
+                    if (
+                            conn.io_file_exists(entry._storepath)
+                            and self.is_deleted(conn, relpath)):
                         threadlog.info("mark for deletion: %s", relpath)
                         conn.io_file_delete(entry._storepath)
                         conn.commit_files_without_increasing_serial()
@@ -987,7 +1002,8 @@ class FileReplicationThread:
         if f is not None:
             # we found a matching existing file
             with keyfs.get_connection(write=True) as conn:
-                conn.io_file_set(entry._storepath, f)
+                if not self.is_deleted(conn, relpath):
+                    conn.io_file_set(entry._storepath, f)
                 # on Windows we need to close the file
                 # before the transaction closes
                 f.close()
@@ -1084,6 +1100,11 @@ class FileReplicationThread:
             # in case there were errors before, we can now remove them
             self.shared_data.errors.remove(entry)
             with keyfs.get_connection(write=True) as conn:
+                if self.is_deleted(conn, relpath):
+                    threadlog.info(
+                        "ignoring because of deletion during download: %s",
+                        relpath)
+                    return
                 conn.io_file_set(entry._storepath, f)
                 # on Windows we need to close the file
                 # before the transaction closes
-- 
2.43.0


From bbcbe8d9fc83eef6559b328baf33e74f91fb0c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:37 +0000
Subject: [PATCH 09/29] fix: mirror: don't wait for a write transaction while
 holding the project list lock

The first update of the list of projects of a mirror starts a write
transaction to trigger the initial-load event. That was done with the
project list lock held, while another request which already has a write
transaction may wait for that lock, so both were stuck until the write
transaction timed out after 60 seconds with an internal server error.
---
 server/devpi_server/mirror.py | 46 +++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index f5b58b7..965b649 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -461,28 +461,33 @@ class MirrorStage(BaseStage):
         except self.UpstreamError as e:
             threadlog.warn(
                 "upstream error (%s): using stale projects list" % e)
-            return self._stale_list_projects_perstage()
+            return (self._stale_list_projects_perstage(), False)
         old = self.cache_projectnames.get()
-        if not self.cache_projectnames.exists() or old != projects:
+        changed = not self.cache_projectnames.exists() or old != projects
+        if changed:
             self.cache_projectnames.set(projects, etag)
-
-            # trigger an initial-load event on primary
-            if not self.xom.is_replica():
-                # make sure we are at the current serial
-                # this avoids setting the value again when
-                # called from the notification thread
-                if not self.keyfs.tx.write:
-                    self.keyfs.restart_read_transaction()
-                k = self.keyfs.MIRRORNAMESINIT(user=self.username, index=self.index)
-                # when 0 it is new, when 1 it is pre 6.6.0 with
-                # only normalized names
-                if k.get() in (0, 1):
-                    with self.keyfs.write_transaction(allow_restart=True):
-                        k.set(2)
         else:
             # mark current without updating contents
             self.cache_projectnames.mark_current(etag)
-        return projects
+        return (projects, changed)
+
+    def _trigger_initial_load(self):
+        # trigger an initial-load event on primary
+        if self.xom.is_replica():
+            return
+        # make sure we are at the current serial
+        # this avoids setting the value again when
+        # called from the notification thread
+        if not self.keyfs.tx.write:
+            self.keyfs.restart_read_transaction()
+        k = self.keyfs.MIRRORNAMESINIT(user=self.username, index=self.index)
+        # when 0 it is new, when 1 it is pre 6.6.0 with
+        # only normalized names
+        if k.get() in (0, 1):
+            with self.keyfs.write_transaction(allow_restart=True):
+                # another thread may have been faster
+                if k.get() in (0, 1):
+                    k.set(2)
 
     def _list_projects_perstage(self):
         """ Return the cached project names.
@@ -500,13 +505,18 @@ class MirrorStage(BaseStage):
         if not self.cache_projectnames.is_expired(self.cache_expiry):
             projects = self.cache_projectnames.get()
         else:
+            changed = False
             with self._list_projects_perstage_lock:
                 # retry in case it was updated in another thread
                 if not self.cache_projectnames.is_expired(self.cache_expiry):
                     projects = self.cache_projectnames.get()
                 else:
                     # no fresh projects or None at all, let's go remote
-                    projects = self._update_projects()
+                    (projects, changed) = self._update_projects()
+            if changed:
+                # must not be done while holding the lock, because this
+                # waits for write transactions which may wait for the lock
+                self._trigger_initial_load()
         return projects
 
     def list_projects_perstage(self):
-- 
2.43.0


From 41d8e3a40beed8431eecd9ebe483b0bc59806b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:03 +0000
Subject: [PATCH 10/29] fix: mirror: failing to read the project list is an
 upstream error

---
 server/devpi_server/mirror.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index 965b649..787844a 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -18,6 +18,7 @@ from functools import partial
 from html.parser import HTMLParser
 from .config import hookimpl
 from .exceptions import lazy_format_exception
+from .exceptions import lazy_format_exception_only
 from .filestore import key_from_link
 from .model import BaseStageCustomizer
 from .model import BaseStage
@@ -442,12 +443,18 @@ class MirrorStage(BaseStage):
             raise self.UpstreamError(
                 "URL %r returned %s %s",
                 self.mirror_url, response.status_code, response.reason)
-        if response.headers.get('content-type') == SIMPLE_API_V1_JSON:
-            parser = ProjectJSONv1Parser(response.url)
-            parser.feed(response.json())
-        else:
-            parser = ProjectHTMLParser(response.url)
-            parser.feed(response.text)
+        try:
+            # the body is streamed, so reading it can still fail
+            if response.headers.get('content-type') == SIMPLE_API_V1_JSON:
+                parser = ProjectJSONv1Parser(response.url)
+                parser.feed(response.json())
+            else:
+                parser = ProjectHTMLParser(response.url)
+                parser.feed(response.text)
+        except (OSError, ValueError) as e:
+            raise self.UpstreamError(
+                "error reading project list from %r: %s" % (
+                    self.mirror_url, lazy_format_exception_only(e))) from e
         return (
             {normalize_name(x): x for x in parser.projects},
             response.headers.get("ETag"))
-- 
2.43.0


From ae1f3f9b2d8d45caa9c1118ad51341b71f8b225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:30 +0000
Subject: [PATCH 11/29] fix: mirror: release the project lock if a request
 fails after it timed out

---
 server/devpi_server/mirror.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index 787844a..d81c3f4 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -595,6 +595,14 @@ class MirrorStage(BaseStage):
         self.key_projsimplelinks(project).set({})
         threadlog.debug("cleared cache for %s", project)
 
+    async def _async_fetch_newlinks(self, newlinks_future, *args):
+        try:
+            await self._async_fetch_releaselinks(newlinks_future, *args)
+        finally:
+            if not newlinks_future.done():
+                # nothing must wait for the result of a failed request
+                newlinks_future.cancel()
+
     async def _async_fetch_releaselinks(self, newlinks_future, project, cache_serial, _key_from_link):
         # get the simple page for the project
         url = self.mirror_url.joinpath(project).asdir()
@@ -718,13 +726,21 @@ class MirrorStage(BaseStage):
 
     async def _update_simplelinks_in_future(self, newlinks_future, project, lock):
         threadlog.debug("Awaiting simple links for %r", project)
-        info = await newlinks_future
-        threadlog.debug("Got simple links for %r", project)
+        try:
+            info = await newlinks_future
+            threadlog.debug("Got simple links for %r", project)
+            self._store_simplelinks_in_background(project, info)
+        except asyncio.CancelledError:
+            threadlog.warn(
+                "Failed to get simple links for %r in background", project)
+        finally:
+            if lock is not None:
+                lock.release()
 
+    def _store_simplelinks_in_background(self, project, info):
         newlinks = join_links_data(
             info["key_hrefs"], info["requires_python"], info["yanked"])
         with self.keyfs.write_transaction():
-            self.keyfs.tx.on_finished(lock.release)
             # fetch current links
             (is_expired, links, cache_serial) = self._load_cache_links(project)
             if links is None or set(links) != set(newlinks):
@@ -792,7 +808,7 @@ class MirrorStage(BaseStage):
             key_from_link, self.keyfs, user=self.user.name, index=self.index)
         try:
             self.xom.run_coroutine_threadsafe(
-                self._async_fetch_releaselinks(
+                self._async_fetch_newlinks(
                     newlinks_future, project, cache_serial, _key_from_link),
                 timeout=self.timeout)
         except asyncio.TimeoutError:
-- 
2.43.0


From 0fb4cb16d7e14a17cd86b24a280b4aa50f508e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:04 +0000
Subject: [PATCH 12/29] fix: mirror: a late answer must not replace newer
 project links

---
 server/devpi_server/mirror.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index d81c3f4..09e4386 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -707,6 +707,13 @@ class MirrorStage(BaseStage):
 
         with self.keyfs.write_transaction(allow_restart=True):
             # on the master we need to write the updated links.
+            # another request may have been faster, so look at the current data
+            (is_expired, links, cache_serial) = self._load_cache_links(project)
+            if links is not None and info["serial"] < cache_serial:
+                threadlog.warn(
+                    "ignoring links for %r with serial %s, we already have %s",
+                    project, info["serial"], cache_serial)
+                return self.SimpleLinks(links, stale=True)
             maplink = partial(
                 self.filestore.maplink,
                 user=self.user.name, index=self.index, project=project)
-- 
2.43.0


From ce8f06d5fe343e0ec958a402ff22beda4f0ae94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:01 +0000
Subject: [PATCH 13/29] fix: crash recovery must keep files which were fetched
 again

---
 server/devpi_server/keyfs_sqlite_fs.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/keyfs_sqlite_fs.py b/server/devpi_server/keyfs_sqlite_fs.py
index 0a8e338..f975ccd 100644
--- a/server/devpi_server/keyfs_sqlite_fs.py
+++ b/server/devpi_server/keyfs_sqlite_fs.py
@@ -147,6 +147,15 @@ class Connection(BaseConnection):
         basedir = str(self.storage.basedir)
         return list(make_rel_renames(basedir, pending_renames))
 
+    def has_file_entry(self, relname):
+        relpath = relname.partition("+files/")[2]
+        try:
+            (keyname, serial) = self.db_read_typedkey(relpath)
+        except KeyError:
+            return False
+        (keyname, back_serial, value) = self.get_changes(serial)[relpath]
+        return value is not None
+
     def _write_dirty_files(self, rel_renames):
         basedir = str(self.storage.basedir)
         # If we crash in the remainder, the next restart will
@@ -206,7 +215,13 @@ class Storage(BaseStorage):
             if conn.last_changelog_serial == -1:
                 return
             data = conn.get_raw_changelog_entry(conn.last_changelog_serial)
-        changes, rel_renames = loads(data)
+            changes, rel_renames = loads(data)
+            # when only the file of an existing entry was removed, then it
+            # might have been fetched again without creating a new serial
+            rel_renames = [
+                x for x in rel_renames
+                if tmpsuffix_for_path(x) is not None
+                or not conn.has_file_entry(x)]
         check_pending_renames(str(self.basedir), rel_renames)
 
 
-- 
2.43.0


From b7ed0bbee72988a150566edaab899cdcc1a0a215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:56 +0000
Subject: [PATCH 14/29] fix: mirror: links stored by a concurrent request must
 not be reported as missing

A request which waited for another one to fetch the links of a project
used its old snapshot without links. As the project was just refreshed,
this was taken as a cached 'not found' and an empty page was returned.
---
 server/devpi_server/mirror.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index 09e4386..6379bd0 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -621,7 +621,7 @@ class MirrorStage(BaseStage):
         elif response.status_code != 200:
             if response.status_code == 404:
                 # immediately cache the not found with no ETag
-                self.cache_retrieve_times.refresh(project, None)
+                self.cache_retrieve_times.refresh_not_found(project)
                 raise self.UpstreamNotFoundError(
                     "not found on GET %r" % url)
 
@@ -795,7 +795,14 @@ class MirrorStage(BaseStage):
         if links is None:
             is_retrieval_expired = self.cache_retrieve_times.is_expired(
                 project, self.cache_expiry)
-            if not is_retrieval_expired:
+            if not is_retrieval_expired and not self.keyfs.tx.write:
+                # another request may have stored the links
+                # after our transaction was started
+                self.keyfs.restart_read_transaction()
+                is_expired, links, cache_serial = self._load_cache_links(project)
+                if links is not None:
+                    return self.SimpleLinks(links)
+            if not is_retrieval_expired and self.cache_retrieve_times.is_not_found(project):
                 raise self.UpstreamNotFoundError(
                     "cached not found for project %s" % project)
             else:
@@ -804,7 +811,7 @@ class MirrorStage(BaseStage):
                     pass
                 elif not exists:
                     # immediately cache the not found with no ETag
-                    self.cache_retrieve_times.refresh(project, None)
+                    self.cache_retrieve_times.refresh_not_found(project)
                     raise self.UpstreamNotFoundError(
                         "project %s not found" % project)
 
@@ -1036,6 +1043,7 @@ class ProjectUpdateLock:
 class ProjectUpdateCache:
     """ Helper class to manage when we last updated something project specific. """
     def __init__(self):
+        self._not_found = set()
         self._project2time = {}
         self._project2lock = weakref.WeakValueDictionary()
 
@@ -1053,9 +1061,17 @@ class ProjectUpdateCache:
         (ts, etag) = self._project2time.get(project, (-1, None))
         return ts
 
+    def is_not_found(self, project):
+        return project in self._not_found
+
     def refresh(self, project, etag):
+        self._not_found.discard(project)
         self._project2time[project] = (time.time(), etag)
 
+    def refresh_not_found(self, project):
+        self._not_found.add(project)
+        self._project2time[project] = (time.time(), None)
+
     def expire(self, project, etag=None):
         if etag is None:
             self._project2time.pop(project, None)
-- 
2.43.0


From f884edb545b15b46f5e8d1d64cafe7771b05d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:52 +0000
Subject: [PATCH 15/29] fix: mirror: don't remember the ETag of links which are
 not stored yet

---
 server/devpi_server/mirror.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index 6379bd0..107e77f 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -562,6 +562,12 @@ class MirrorStage(BaseStage):
 
         self.keyfs.tx.on_commit_success(on_commit)
 
+    def _refresh_retrieve_time(self, project, etag):
+        if self.keyfs.tx.is_dirty(self.key_projsimplelinks(project)):
+            # the links aren't stored yet, see on_commit in _save_cache_links
+            return
+        self.cache_retrieve_times.refresh(project, etag)
+
     def _load_cache_links(self, project):
         is_expired, links_with_data, serial = True, None, -1
 
@@ -842,7 +848,7 @@ class MirrorStage(BaseStage):
         except self.UpstreamNotModified as e:
             if links is not None:
                 # immediately update the cache
-                self.cache_retrieve_times.refresh(project, e.etag)
+                self._refresh_retrieve_time(project, e.etag)
                 return self.SimpleLinks(links)
             if e.etag is None:
                 threadlog.error(
@@ -868,7 +874,7 @@ class MirrorStage(BaseStage):
             info["key_hrefs"], info["requires_python"], info["yanked"])
         if links is not None and set(links) == set(newlinks):
             # no changes
-            self.cache_retrieve_times.refresh(project, info["etag"])
+            self._refresh_retrieve_time(project, info["etag"])
             return self.SimpleLinks(links)
 
         return self._update_simplelinks(project, info, links, newlinks)
-- 
2.43.0


From 02dccf72011cba50a4c85ac0befc2e1872861742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:24 +0000
Subject: [PATCH 16/29] fix: import of indexes which are their own bases in a
 circle

---
 server/devpi_server/importexport.py | 40 +++++++++--------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/server/devpi_server/importexport.py b/server/devpi_server/importexport.py
index 6d46b6a..694193c 100644
--- a/server/devpi_server/importexport.py
+++ b/server/devpi_server/importexport.py
@@ -633,7 +633,6 @@ class IndexTree:
     create in root->child order.
     """
     def __init__(self):
-        self.name2children = {}
         self.name2bases = {}
 
     def add(self, name, bases=None):
@@ -641,12 +640,6 @@ class IndexTree:
         while name in bases:
             bases.remove(name)
         self.name2bases[name] = bases
-        if not bases:
-            self.name2children.setdefault(None, []).append(name)
-        else:
-            for base in bases:
-                children = self.name2children.setdefault(base, [])
-                children.append(name)
 
     def validate(self):
         all_bases = set(itertools.chain.from_iterable(self.name2bases.values()))
@@ -660,25 +653,16 @@ class IndexTree:
 
     def iternames(self):
         self.validate()
-        pending = [None]
+        remaining = dict.fromkeys(self.name2bases)
         created = set()
-        while pending:
-            name = pending.pop(0)
-            for base in self.name2bases.get(name, []):
-                if base not in created:
-                    pending.append(name)
-                    break
-            else:
-                if name not in created:
-                    if name:
-                        yield name
-                    created.add(name)
-                    for child in self.name2children.get(name, []):
-                        if child not in created:
-                            pending.append(child)
-        missed = set(self.name2bases) - created
-        if missed:
-            msg = (
-                f"The following stages couldn't be reached by the dependency "
-                f"tree built from the bases: {', '.join(sorted(missed))}")
-            raise Fatal(msg)
+        while remaining:
+            names = [
+                name for name in remaining
+                if created.issuperset(self.name2bases[name])]
+            if not names:
+                # there is a circle in the bases, so start with any of them
+                names = [next(iter(remaining))]
+            for name in names:
+                yield name
+                created.add(name)
+                del remaining[name]
-- 
2.43.0


From 6387341af4547b32dda3436eb01304e2ce9648f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:15 +0000
Subject: [PATCH 17/29] fix: archive members with ".." in their name were
 extracted outside of the target

---
 common/devpi_common/archive.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/common/devpi_common/archive.py b/common/devpi_common/archive.py
index 6877b6e..75c3592 100644
--- a/common/devpi_common/archive.py
+++ b/common/devpi_common/archive.py
@@ -43,6 +43,16 @@ def Archive(path_or_file):
         raise
 
 
+def check_bounds(basedir, name):
+    # pathlib doesn't resolve ".." when determining relative paths
+    target = Path(os.path.abspath(basedir.joinpath(name)))
+    try:
+        target.relative_to(os.path.abspath(basedir))
+    except ValueError as e:
+        raise ValueError(
+            f"archive name {name!r} out of bound") from e
+
+
 class BaseArchive:
     class FileNotExist(ValueError):
         """ File does not exist. """
@@ -92,12 +102,7 @@ class TarArchive(BaseArchive):
         to_path = Path(to_path)
         members = self._archive.getmembers()
         for member in members:
-            target = to_path.joinpath(member.name)
-            try:
-                target.relative_to(to_path)
-            except ValueError as e:
-                raise ValueError(
-                    f"archive name {member.name!r} out of bound") from e
+            check_bounds(to_path, member.name)
         if hasattr(tarfile, 'data_filter'):
             self._archive.extractall(str(to_path), members=members, filter='data')  # type: ignore[call-arg,unused-ignore]
         else:
@@ -127,12 +132,8 @@ class ZipArchive(BaseArchive):
         unzipfile = self._archive
         members = unzipfile.namelist()
         for name in members:
+            check_bounds(basedir, name)
             fpath = basedir.joinpath(name)
-            try:
-                fpath.relative_to(basedir)
-            except ValueError as e:
-                raise ValueError(
-                    f"archive name {name!r} out of bound") from e
             if name.endswith((os.sep, "/")):
                 fpath.mkdir(parents=True, exist_ok=True)
             else:
-- 
2.43.0


From 6a2d3e7fa77c79b2c06abf434bb34bd114934019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:15 +0000
Subject: [PATCH 18/29] fix: documentation URLs with ".." exposed any file
 readable by the server

---
 web/devpi_web/doczip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/web/devpi_web/doczip.py b/web/devpi_web/doczip.py
index 3eceec4..558dbb1 100644
--- a/web/devpi_web/doczip.py
+++ b/web/devpi_web/doczip.py
@@ -76,7 +76,9 @@ def docs_file_exists(stage, name, version, entry, relpath):
                     return False
     else:
         doc_path = unpack_docs(stage, name, version, entry)
-        if doc_path.join(relpath).isfile():
+        path = doc_path.join(relpath)
+        # never expose files outside of the unpacked documentation
+        if path.relto(doc_path) and path.isfile():
             return True
     return False
 
-- 
2.43.0


From 65b1f7da99145dfce1fca1d4cd3ef8ba7af2fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:15 +0000
Subject: [PATCH 19/29] fix: unpacked documentation was mixed, missing or
 outdated after crashes or concurrent changes

---
 web/devpi_web/doczip.py | 124 +++++++++++++++++++++++++++++-----------
 web/devpi_web/views.py  |  19 +++++-
 2 files changed, 107 insertions(+), 36 deletions(-)

diff --git a/web/devpi_web/doczip.py b/web/devpi_web/doczip.py
index 558dbb1..3db512f 100644
--- a/web/devpi_web/doczip.py
+++ b/web/devpi_web/doczip.py
@@ -7,6 +7,7 @@ from devpi_common.validation import normalize_name
 from devpi_server.log import threadlog
 from devpi_web.compat import get_entry_hash_spec
 import json
+import os
 import py
 
 
@@ -32,21 +33,51 @@ def locked_unpack_path(stage, name, version, remove_lock_file=False):
     # we are using the hash file as a lock file
     hash_path = unpack_path.new(ext="hash")
     try:
+        with locked_hash_file(hash_path) as hash_file:
+            try:
+                yield (hash_file, unpack_path)
+            finally:
+                if fcntl and remove_lock_file:
+                    # others may already wait for the lock of this file,
+                    # so it has to be removed before it is unlocked
+                    _remove_hash_file(hash_path)
+    finally:
+        if remove_lock_file and not fcntl:
+            # open files can't be removed on all platforms
+            _remove_hash_file(hash_path)
+
+
+@contextmanager
+def locked_hash_file(hash_path):
+    while True:
         with hash_path.open("a+", ensure=True) as hash_file:
             if fcntl:
                 fcntl.flock(hash_file, fcntl.LOCK_EX)
             try:
-                yield (hash_file, unpack_path)
+                if fcntl and not _is_same_file(hash_file, hash_path):
+                    # the file was removed while we waited for the lock
+                    continue
+                yield hash_file
             finally:
                 if fcntl:
                     fcntl.flock(hash_file, fcntl.LOCK_UN)
-    finally:
-        if remove_lock_file and hash_path.exists():
-            try:
-                hash_path.remove()
-            except py.error.ENOENT:
-                # there is a rare possibility of a race condition here
-                pass
+            return
+
+
+def _is_same_file(f, path):
+    try:
+        return os.path.samestat(os.fstat(f.fileno()), os.stat(path.strpath))
+    except FileNotFoundError:
+        return False
+
+
+def _remove_hash_file(hash_path):
+    if hash_path.exists():
+        try:
+            hash_path.remove()
+        except py.error.ENOENT:
+            # there is a rare possibility of a race condition here
+            pass
 
 
 def keep_docs_packed(config):
@@ -67,7 +98,12 @@ def docs_file_content(stage, name, version, entry, relpath):
 
 def docs_file_exists(stage, name, version, entry, relpath):
     if keep_docs_packed(stage.xom.config):
-        with entry.file_open_read() as f:
+        try:
+            f = entry.file_open_read()
+        except FileNotFoundError:
+            # removed in the meantime
+            return False
+        with f:
             with Archive(f) as archive:
                 try:
                     if archive.getfile(relpath):
@@ -75,11 +111,11 @@ def docs_file_exists(stage, name, version, entry, relpath):
                 except archive.FileNotExist:
                     return False
     else:
-        doc_path = unpack_docs(stage, name, version, entry)
-        path = doc_path.join(relpath)
-        # never expose files outside of the unpacked documentation
-        if path.relto(doc_path) and path.isfile():
-            return True
+        with unpacked_docs(stage, name, version, entry) as doc_path:
+            path = doc_path.join(relpath)
+            # never expose files outside of the unpacked documentation
+            if path.relto(doc_path) and path.isfile():
+                return True
     return False
 
 
@@ -90,32 +126,52 @@ def docs_file_path(stage, name, version, entry, relpath):
     return doc_path.join(relpath)
 
 
-def unpack_docs(stage, name, version, entry):
+@contextmanager
+def unpacked_docs(stage, name, version, entry):
+    """ The files aren't replaced or removed by others within the context. """
     # unpack, maybe a bit uncarefully but in principle
     # we are not losing the original zip file anyway
     with locked_unpack_path(stage, name, version) as (hash_file, unpack_path):
         hash_file.seek(0)
-        if hash_file.read().strip() == get_entry_hash_spec(entry):
-            return unpack_path
-        if unpack_path.exists():
-            try:
-                unpack_path.remove()
-            except py.error.ENOENT:
-                # there is a rare possibility of a race condition here
-                pass
-        if not entry.file_exists():
-            return unpack_path
-        with entry.file_open_read() as f:
-            with Archive(f) as archive:
-                archive.extract(unpack_path)
-        hash_file.seek(0)
-        hash_file.write(get_entry_hash_spec(entry))
-        hash_file.truncate()
-        threadlog.debug("%s: unpacked %s-%s docs to %s",
-                        stage.name, name, version, unpack_path)
+        if hash_file.read().strip() != get_entry_hash_spec(entry):
+            _unpack_docs(stage, name, version, entry, hash_file, unpack_path)
+        yield unpack_path
+
+
+def unpack_docs(stage, name, version, entry):
+    with unpacked_docs(stage, name, version, entry) as unpack_path:
         return unpack_path
 
 
+def _unpack_docs(stage, name, version, entry, hash_file, unpack_path):
+    # the hash must only be there when everything is unpacked,
+    # note that with mode "a+" all writes are appended
+    hash_file.seek(0)
+    hash_file.truncate()
+    _remove_dir(unpack_path)
+    try:
+        f = entry.file_open_read()
+    except FileNotFoundError:
+        # not there yet or removed in the meantime
+        return
+    with f:
+        with Archive(f) as archive:
+            archive.extract(unpack_path)
+    hash_file.write(get_entry_hash_spec(entry))
+    hash_file.flush()
+    threadlog.debug("%s: unpacked %s-%s docs to %s",
+                    stage.name, name, version, unpack_path)
+
+
+def _remove_dir(path):
+    if path.exists():
+        try:
+            path.remove()
+        except py.error.ENOENT:
+            # there is a rare possibility of a race condition here
+            pass
+
+
 class PackedEntry:
     def __init__(self, basename, body):
         self.basename = basename
@@ -243,4 +299,6 @@ def remove_docs(stage, project, version):
             threadlog.debug("ignoring lost unpacked docs: %s" % directory)
         else:
             threadlog.debug("removing unpacked docs: %s" % directory)
+            # the hash must only be there when everything is unpacked
+            hash_file.truncate(0)
             directory.remove()
diff --git a/web/devpi_web/views.py b/web/devpi_web/views.py
index 94f2aed..8a68866 100644
--- a/web/devpi_web/views.py
+++ b/web/devpi_web/views.py
@@ -17,6 +17,7 @@ from devpi_web.doczip import docs_exist
 from devpi_web.doczip import docs_file_content
 from devpi_web.doczip import docs_file_exists
 from devpi_web.doczip import docs_file_path
+from devpi_web.doczip import unpacked_docs
 from devpi_web.indexing import is_project_cached
 from devpi_web.main import navigation_version
 from email.utils import parsedate
@@ -156,11 +157,16 @@ def get_doc_info(context, request, version=None, check_content=True):
     result = dict(
         etag=get_entry_hash_value(entry),
         relpath=relpath,
+        entry=entry,
         doc_version=doc_version,
         version_mismatch=doc_version != navigation_version(context))
     if check_content:
-        result['body'] = docs_file_content(
-            context.stage, name, doc_version, entry, relpath)
+        try:
+            result['body'] = docs_file_content(
+                context.stage, name, doc_version, entry, relpath)
+        except FileNotFoundError:
+            # removed in the meantime
+            raise HTTPNotFound("No documentation available.")
         result['doc_path'] = docs_file_path(
             context.stage, name, doc_version, entry, relpath)
     return result
@@ -192,7 +198,14 @@ def doc_serve(context, request):
             content_type=content_type,
             content_encoding=content_encoding)
     else:
-        response = FileResponse(str(doc_info['doc_path']))
+        # the files may be replaced or removed by other requests
+        with unpacked_docs(
+                context.stage, context.project,
+                doc_info['doc_version'], doc_info['entry']):
+            try:
+                response = FileResponse(str(doc_info['doc_path']))
+            except FileNotFoundError:
+                raise HTTPNotFound("No documentation available.")
     response.etag = doc_info['etag']
     response.cache_expires(60)
     return response
-- 
2.43.0


From a8cc9b431427ebcdbaf8c203c5e52a5eb960486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:15 +0000
Subject: [PATCH 20/29] fix: server error on search hits in documentation which
 changed since it was indexed

---
 web/devpi_web/doczip.py |  2 +-
 web/devpi_web/views.py  | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/web/devpi_web/doczip.py b/web/devpi_web/doczip.py
index 3db512f..06adf77 100644
--- a/web/devpi_web/doczip.py
+++ b/web/devpi_web/doczip.py
@@ -204,7 +204,7 @@ class Docs(DictMixin):
         if not self.exists():
             # this happens on import, when the metadata is registered, but the docs
             # aren't uploaded yet
-            threadlog.warn("Tried to access %s, but it doesn't exist.", self.unpack_path)
+            threadlog.warn("Tried to access docs of %s %s, but they don't exist.", self.name, self.version)
             return {}
         if self.keep_docs_packed:
             return self._packed_entries()
diff --git a/web/devpi_web/views.py b/web/devpi_web/views.py
index 8a68866..810bb71 100644
--- a/web/devpi_web/views.py
+++ b/web/devpi_web/views.py
@@ -1080,8 +1080,14 @@ class SearchView:
             if text_type == 'project':
                 continue
             elif text_type in ('title', 'page'):
-                docs = self.get_docs(stage, data)
-                entry = docs[sub_data['text_path']]
+                try:
+                    docs = self.get_docs(stage, data)
+                    entry = docs[sub_data['text_path']]
+                except (KeyError, stage.MissesRegistration):
+                    entry = None
+                if entry is None:
+                    # changed or removed since it was indexed
+                    continue
                 text = entry['text']
                 highlight = search_index.highlight(text, sub_hit.get('words'))
                 title = sub_data.get('text_title', title)
-- 
2.43.0


From fd505201cfc6cfffd8a275dc4a91bded5d5bafb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:15 +0000
Subject: [PATCH 21/29] fix: server error instead of not found for latest and
 stable versions of a missing index

---
 web/devpi_web/main.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/web/devpi_web/main.py b/web/devpi_web/main.py
index 9f3a614..53162fd 100644
--- a/web/devpi_web/main.py
+++ b/web/devpi_web/main.py
@@ -44,11 +44,15 @@ def macros(request):
 
 def navigation_version(context):
     version = context.version
+    if version not in ('latest', 'stable'):
+        return version
+    stage = context.model.getstage(context.username, context.index)
+    if stage is None:
+        # used for the error page of a missing index
+        return version
     if version == 'latest':
-        stage = context.model.getstage(context.username, context.index)
         version = stage.get_latest_version_perstage(context.project)
     elif version == 'stable':
-        stage = context.model.getstage(context.username, context.index)
         version = stage.get_latest_version_perstage(context.project, stable=True)
     return version
 
-- 
2.43.0


From 9b23c9a75b00573e280b22a8a521a3ed14e40408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:15 +0000
Subject: [PATCH 22/29] fix: database stayed locked when a write transaction
 could not read the current serial

---
 server/devpi_server/keyfs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/keyfs.py b/server/devpi_server/keyfs.py
index 7213cbf..8a6471b 100644
--- a/server/devpi_server/keyfs.py
+++ b/server/devpi_server/keyfs.py
@@ -587,7 +587,13 @@ class Transaction(object):
             # open connection immediately
             self.conn  # noqa: B018
         if at_serial is None:
-            at_serial = self.conn.last_changelog_serial
+            try:
+                at_serial = self.conn.last_changelog_serial
+            except BaseException:
+                # nobody else will do it and the database
+                # would stay locked for other writers
+                self.conn.close()
+                raise
         self.at_serial = at_serial
         self._original = {}
         self.cache = {}
-- 
2.43.0


From 2ed205942bfe95d6d1dc88e523b8bab24cdd40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:15 +0000
Subject: [PATCH 23/29] fix: search index was wiped or its creation failed when
 opened while it is written

---
 web/devpi_web/whoosh_index.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/web/devpi_web/whoosh_index.py b/web/devpi_web/whoosh_index.py
index 1ec8c0c..e4ff22a 100644
--- a/web/devpi_web/whoosh_index.py
+++ b/web/devpi_web/whoosh_index.py
@@ -18,7 +18,7 @@ from whoosh.analysis import Filter, LowercaseFilter, RegexTokenizer
 from whoosh.analysis import Token, Tokenizer
 from whoosh.compat import text_type, u
 from whoosh.highlight import ContextFragmenter, HtmlFormatter, highlight
-from whoosh.index import create_in, exists_in, open_dir
+from whoosh.index import EmptyIndexError, create_in, open_dir
 from whoosh.index import IndexError as WhooshIndexError
 from whoosh.qparser import QueryParser
 from whoosh.qparser import plugins
@@ -28,6 +28,7 @@ import itertools
 import os
 import shutil
 import sys
+import threading
 import time
 import traceback
 
@@ -508,6 +509,7 @@ class Index:
         index_path.mkdir(parents=True, exist_ok=True)
         log.info("Using %s for Whoosh index files.", index_path)
         self.index_path = str(index_path)
+        self.create_lock = threading.Lock()
         self.indexer_thread = None
         self.shared_data = None
         self.xom = None
@@ -519,15 +521,27 @@ class Index:
 
     def ix(self, name):
         schema = getattr(self, '%s_schema' % name)
-        try:
-            exists = exists_in(self.index_path, indexname=name)
-        except FileNotFoundError:
-            exists = False
-        if not exists:
-            return create_in(self.index_path, schema, indexname=name)
-        ix = open_dir(self.index_path, indexname=name)
-        update_schema(ix, schema)
-        return ix
+        retries = 10
+        while 1:
+            try:
+                # several threads access the index when the server starts
+                with self.create_lock:
+                    try:
+                        ix = open_dir(self.index_path, indexname=name)
+                    except EmptyIndexError:
+                        return create_in(
+                            self.index_path, schema, indexname=name)
+                update_schema(ix, schema)
+            except FileNotFoundError:
+                # the indexer thread removed the file we were trying to open
+                # after committing a newer one, in no case we may create the
+                # index here, because that removes all existing data
+                retries -= 1
+                if retries <= 0:
+                    raise
+                time.sleep(0.05)
+            else:
+                return ix
 
     def delete_index(self):
         shutil.rmtree(self.index_path)
-- 
2.43.0


From 0ad82ed34956b95fbd0728ee6aa0147ce99a3067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:15 +0000
Subject: [PATCH 24/29] fix: projects of deleted indexes stayed in the search
 index

---
 web/devpi_web/main.py         |  5 +++++
 web/devpi_web/whoosh_index.py | 39 ++++++++++++++++++++++++++++++++++-
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/web/devpi_web/main.py b/web/devpi_web/main.py
index 53162fd..b46657f 100644
--- a/web/devpi_web/main.py
+++ b/web/devpi_web/main.py
@@ -290,6 +290,11 @@ def devpiserver_stage_created(stage):
     if stage is None:
         # the stage was deleted
         return
+    ix = get_indexer(stage.xom)
+    if hasattr(ix, "delete_obsolete_projects"):
+        # there may be projects left from an index with the same name,
+        # which was deleted before
+        ix.delete_obsolete_projects(stage.name)
     if stage.ixconfig["type"] == "mirror":
         threadlog.info("triggering load of initial projectnames for %s", stage.name)
         stage.list_projects_perstage()
diff --git a/web/devpi_web/whoosh_index.py b/web/devpi_web/whoosh_index.py
index e4ff22a..cfa476d 100644
--- a/web/devpi_web/whoosh_index.py
+++ b/web/devpi_web/whoosh_index.py
@@ -318,6 +318,35 @@ class IndexingSharedData(object):
             self.extend(_projects, serial)
         log.info("Processed a total of %s projects and queued %s" % (processed, queued))
 
+    def queue_obsolete(self, xom, at_serial, searcher, indexname=None):
+        """ Queue projects from the search index which don't exist anymore.
+
+        There are no events for the projects of a removed index. """
+        fields = dict(type="project")
+        if indexname is not None:
+            (fields["user"], fields["index"]) = indexname.split("/")
+        stages = {}
+        obsolete = {}
+        for document in searcher.documents(**fields):
+            name = normalize_name(document["name"])
+            indexname = "%s/%s" % (document["user"], document["index"])
+            if indexname not in stages:
+                stages[indexname] = xom.model.getstage(indexname)
+            stage = stages[indexname]
+            if stage is not None:
+                if stage.ixconfig["type"] == "mirror":
+                    continue
+                if stage.has_project_perstage(name):
+                    continue
+            obsolete.setdefault(indexname, []).append(name)
+        for indexname, names in obsolete.items():
+            for i in range(0, len(names), self.QUEUE_MAX_NAMES):
+                # note the negated serial for the PriorityQueue
+                self.queue.put((
+                    False, -at_serial, indexname,
+                    tuple(names[i:i + self.QUEUE_MAX_NAMES])))
+                self.last_added = time.time()
+
     def is_in_future(self, ts):
         return ts > time.time()
 
@@ -478,6 +507,8 @@ class InitialQueueThread(object):
             searcher = indexer.get_project_ix().searcher()
             self.shared_data.queue_projects(
                 iter_projects(self.xom), tx.at_serial, searcher)
+            self.shared_data.queue_obsolete(
+                self.xom, tx.at_serial, searcher)
 
 
 def setup_thread(xom):
@@ -573,7 +604,7 @@ class Index:
             text=fields.TEXT(analyzer=NgramWordAnalyzer(), stored=False, phrase=False))
 
     def _delete_project(self, indexname, project, serial, counter, writer, searcher):
-        path = u"/%s/%s" % (indexname, project)
+        path = u"/%s/%s" % (indexname, normalize_name(project))
         writer.delete_by_term('path', path, searcher=searcher)
         next(counter)
         log.debug("Removed %s from search index.", path)
@@ -659,6 +690,12 @@ class Index:
         self.shared_data.queue_projects(
             projects, self.xom.keyfs.tx.at_serial, project_ix.searcher())
 
+    def delete_obsolete_projects(self, indexname):
+        # we just queue the projects and let the thread handle this
+        self.shared_data.queue_obsolete(
+            self.xom, self.xom.keyfs.tx.at_serial,
+            self.get_project_ix().searcher(), indexname)
+
     def _process_results(self, raw, page=1):
         items = []
         result_info = dict()
-- 
2.43.0


From cfcf55c26167e25dbda68ce3aa71a8a9bd1cc209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:18 +0000
Subject: [PATCH 25/29] fix: bases which are inherited on several ways were
 listed repeatedly

The data of such a base was visited several times and a version from it was
reported as shadowing itself.
---
 server/devpi_server/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index aba1d5e..eaa760a 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1128,6 +1128,9 @@ class BaseStage(object):
         devpiserver_sro_skip = self.xom.config.hook.devpiserver_sro_skip
         while todo:
             stage = todo.pop(0)
+            if stage.name in seen:
+                # it is a base of several indexes
+                continue
             yield stage
             seen.add(stage.name)
             for base in stage.ixconfig.get("bases", ()):
-- 
2.43.0


From 649f49e0d482939712be55afd34bd06fa6d4872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:18 +0000
Subject: [PATCH 26/29] fix: push to an external index reported success if only
 the last upload succeeded

---
 server/devpi_server/views.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index a668249..cfe8024 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1099,6 +1099,7 @@ class PyPIView:
                     proceed = (r.status_code in ok_codes | {HTTPStatus.GONE})
                 else:
                     proceed = True
+                success = proceed
                 if proceed:
                     for link in links.get("releasefile", ()):
                         entry = link.entry
@@ -1120,6 +1121,7 @@ class PyPIView:
                         except Exception as e:
                             exc_msg = ''.join(traceback.format_exception_only(e.__class__, e))
                             results.append((-1, "exception on release upload:", exc_msg))
+                            success = False
                         else:
                             self.log.debug("send finished, status: %s", r.status_code)
                             # ignore response body on success
@@ -1127,6 +1129,7 @@ class PyPIView:
                             results.append((
                                 r.status_code, "upload", entry.relpath, text))
                             r.close()
+                            success = success and r.status_code in ok_codes
                     if links.get("doczip", ()):
                         doc_metadata = metadata.copy()
                         doc_metadata[":action"] = "doc_upload"
@@ -1139,10 +1142,12 @@ class PyPIView:
                         except Exception as e:
                             exc_msg = ''.join(traceback.format_exception_only(e.__class__, e))
                             results.append((-1, "exception on documentation upload:", exc_msg))
+                            success = False
                         else:
                             self.log.debug("send finished, status: %s", r.status_code)
                             results.append((r.status_code, "docfile", name))
-                if r.status_code in ok_codes:
+                            success = success and r.status_code in ok_codes
+                if success:
                     apireturn(200, result=results, type="actionlog")
                 else:
                     apireturn(502, result=results, type="actionlog")
-- 
2.43.0


From 3841a6d738f548f9ad33db13d04a275c308f440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:43 +0000
Subject: [PATCH 27/29] fix: listing a mirror's projects broke when its cached
 names changed meanwhile

---
 server/devpi_server/mirror.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index 107e77f..e156388 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -972,13 +972,18 @@ class ProjectNamesCache:
 
     def add(self, project):
         """ Add project to cache. """
+        name = normalize_name(project)
         with self._lock:
-            self._data[normalize_name(project)] = project
+            if self._data.get(name) != project:
+                # the current mapping may be iterated by other threads
+                self._data = {**self._data, name: project}
 
     def discard(self, project):
         """ Remove project from cache. """
+        name = normalize_name(project)
         with self._lock:
-            del self._data[normalize_name(project)]
+            # the current mapping may be iterated by other threads
+            self._data = {k: v for k, v in self._data.items() if k != name}
 
     def set(self, data, etag):
         """ Set data and update timestamp. """
-- 
2.43.0


From bde1112a1f38f4a05c71fb29ce8bc848b849670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:44 +0000
Subject: [PATCH 28/29] fix: replica answered 502 instead of serving stale
 links when replication lagged

---
 server/devpi_server/mirror.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index e156388..620c8b0 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -697,17 +697,21 @@ class MirrorStage(BaseStage):
             devpi_serial = int(info["devpi_serial"])
             threadlog.debug("get_simplelinks pypi: waiting for devpi_serial %r",
                             devpi_serial)
-            links = None
             if self.keyfs.wait_tx_serial(devpi_serial, timeout=self.timeout):
                 threadlog.debug("get_simplelinks pypi: finished waiting for devpi_serial %r",
                                 devpi_serial)
                 # XXX raise TransactionRestart to get a consistent clean view
                 self.keyfs.restart_read_transaction()
                 is_expired, links, cache_serial = self._load_cache_links(project)
-            if links is not None:
-                self.keyfs.tx.on_commit_success(partial(
-                    self.cache_retrieve_times.refresh, project, info["etag"]))
-                return self.SimpleLinks(links)
+                if links is not None:
+                    self.keyfs.tx.on_commit_success(partial(
+                        self.cache_retrieve_times.refresh, project, info["etag"]))
+                    return self.SimpleLinks(links)
+            elif links is not None:
+                threadlog.warn(
+                    "serving stale links for %r, waiting for devpi_serial %r timed out",
+                    project, devpi_serial)
+                return self.SimpleLinks(links, stale=True)
             raise self.UpstreamError("no cache links from primary for %s" %
                                      project)
 
-- 
2.43.0


From 8d8cd9e812d69abe99f422104074d15fc4e2818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:31 +0000
Subject: [PATCH 29/29] fix: replica answered 502 for a listed project which
 upstream doesn't have anymore

---
 server/devpi_server/mirror.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index 620c8b0..909fbf5 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -707,6 +707,11 @@ class MirrorStage(BaseStage):
                     self.keyfs.tx.on_commit_success(partial(
                         self.cache_retrieve_times.refresh, project, info["etag"]))
                     return self.SimpleLinks(links)
+                if not newlinks:
+                    # the primary answers without any links if upstream
+                    # doesn't have the project anymore
+                    raise self.UpstreamNotFoundError(
+                        "project %s not found" % project)
             elif links is not None:
                 threadlog.warn(
                     "serving stale links for %r, waiting for devpi_serial %r timed out",
-- 
2.43.0

