From 126a813fe264ddef544beaadef404237f027361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 01/94] fix: removexattr() of a missing attribute must not drop
 a name reference

The name was removed from (or its reference count decreased in) the names
table before checking whether the inode has such an attribute. If the name
was in use as a file name or as an attribute of another inode, that
directory entry or attribute vanished.
---
 src/s3ql/fs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 8e15a4d..96eb07e 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -363,8 +363,10 @@ class Operations(pyfuse3.Operations):
         if self.failsafe or self.inodes[id_].locked:
             raise FUSEError(errno.EPERM)
 
+        # The name may exist without being used for an attribute of this inode, so its
+        # reference must not be dropped before we know that there is something to remove.
         try:
-            name_id = self._del_name(name)
+            name_id = self.db.get_int_val('SELECT id FROM names WHERE name=?', (name,))
         except NoSuchRowError:
             raise FUSEError(pyfuse3.ENOATTR)
 
@@ -373,6 +375,7 @@ class Operations(pyfuse3.Operations):
         )
         if changes == 0:
             raise FUSEError(pyfuse3.ENOATTR)
+        self._del_name(name)
 
         self.inodes[id_].ctime_ns = time_ns()
 
-- 
2.43.0


From bab3a06653db570ff14a20b2965860c11f533a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 02/94] fix: setxattr() of an existing attribute must not leak
 a name reference

Every replacement of an attribute value increased the reference count of
the attribute name, so that fsck.s3ql reported a wrong reference count for
a cleanly unmounted file system.
---
 src/s3ql/fs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 96eb07e..37ed503 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -351,9 +351,15 @@ class Operations(pyfuse3.Operations):
             if self.failsafe or self.inodes[id_].locked:
                 raise FUSEError(errno.EPERM)
 
+            name_id = self._add_name(name)
+            if self.db.has_val(
+                'SELECT 1 FROM ext_attributes WHERE inode=? AND name_id=?', (id_, name_id)
+            ):
+                # Replacing a value does not add a reference to the name
+                self._del_name(name)
             self.db.execute(
                 'INSERT OR REPLACE INTO ext_attributes (inode, name_id, value) VALUES(?, ?, ?)',
-                (id_, self._add_name(name), value),
+                (id_, name_id, value),
             )
             self.inodes[id_].ctime_ns = time_ns()
 
-- 
2.43.0


From 1a892fc3cfd8e5dd7a97b5813c8c996be8e39a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 03/94] fix: do not leak lookup counts when unlink, rmdir or
 rename fail

The inode stayed in open_inodes forever, so that its data was not removed
(and its objects not deleted) when it was unlinked later on.
---
 src/s3ql/fs.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 37ed503..6d7bf31 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -652,13 +652,13 @@ class Operations(pyfuse3.Operations):
             raise FUSEError(errno.EPERM)
 
         inode = self._lookup(id_p, name, ctx)
+        try:
+            if stat.S_ISDIR(inode.mode):
+                raise FUSEError(errno.EISDIR)
 
-        if stat.S_ISDIR(inode.mode):
-            raise FUSEError(errno.EISDIR)
-
-        await self._remove(id_p, name, inode.id)
-
-        await self.forget([(inode.id, 1)])
+            await self._remove(id_p, name, inode.id)
+        finally:
+            await self.forget([(inode.id, 1)])
 
     async def rmdir(self, id_p: InodeT, name: bytes, ctx: RequestContext) -> None:
         log.debug('started with %d, %r', id_p, name)
@@ -666,16 +666,16 @@ class Operations(pyfuse3.Operations):
             raise FUSEError(errno.EPERM)
 
         inode = self._lookup(id_p, name, ctx)
+        try:
+            if self.inodes[id_p].locked:
+                raise FUSEError(errno.EPERM)
 
-        if self.inodes[id_p].locked:
-            raise FUSEError(errno.EPERM)
-
-        if not stat.S_ISDIR(inode.mode):
-            raise FUSEError(errno.ENOTDIR)
-
-        await self._remove(id_p, name, inode.id)
+            if not stat.S_ISDIR(inode.mode):
+                raise FUSEError(errno.ENOTDIR)
 
-        await self.forget([(inode.id, 1)])
+            await self._remove(id_p, name, inode.id)
+        finally:
+            await self.forget([(inode.id, 1)])
 
     async def _purge_inode(self, id_: InodeT, size: int) -> None:
         '''Remove an inode that has no more references.
@@ -806,8 +806,12 @@ class Operations(pyfuse3.Operations):
             target_exists = True
 
         if target_exists:
-            await self._replace(id_p_old, name_old, id_p_new, name_new, inode_old.id, inode_new.id)
-            await self.forget([(inode_old.id, 1), (inode_new.id, 1)])
+            try:
+                await self._replace(
+                    id_p_old, name_old, id_p_new, name_new, inode_old.id, inode_new.id
+                )
+            finally:
+                await self.forget([(inode_old.id, 1), (inode_new.id, 1)])
         else:
             self._rename(id_p_old, name_old, id_p_new, name_new)
             await self.forget([(inode_old.id, 1)])
-- 
2.43.0


From fef0f356532902b9c0ac424b7ce30fc729a9307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 04/94] fix: rename() onto a non-empty directory fails with
 ENOTEMPTY

POSIX (and rename(2)) specify EEXIST or ENOTEMPTY for this case. EINVAL
means that a directory is moved into itself.
---
 src/s3ql/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 6d7bf31..4c269bd 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -883,7 +883,7 @@ class Operations(pyfuse3.Operations):
                 "Attempted to overwrite entry with children: %s",
                 get_path(id_p_new, self.db, name_new),
             )
-            raise FUSEError(errno.EINVAL)
+            raise FUSEError(errno.ENOTEMPTY)
 
         # Replace target
         name_id_new = self.db.get_int_val('SELECT id FROM names WHERE name=?', (name_new,))
-- 
2.43.0


From 6fdf1bd339987e612d7177e1c54cbcdd0085ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 05/94] fix: truncating into a lost block reports EIO instead
 of crashing

The NoSuchObject exception was passed on to pyfuse3, which terminates the
file system. Handle the situation like read() and write() do.
---
 src/s3ql/fs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 4c269bd..c442ae9 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -1012,7 +1012,9 @@ class Operations(pyfuse3.Operations):
                     log.warning(
                         'Backend lost block %d of inode %d (id %s)!', last_block, id_, exc.key
                     )
-                    raise
+                    self.failsafe = True
+                    self.broken_blocks[id_].add(last_block)
+                    raise FUSEError(errno.EIO)
 
                 except CorruptedObjectError as exc:
                     log.warning(
-- 
2.43.0


From 11773f37af3436891a06e19c9e84c409d8d12dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 06/94] fix: replicate dirty blocks of inodes that the kernel
 has forgotten

copy_tree() only made sure that the blocks of open inodes are in the
database. A file that was written, closed and forgotten by the kernel
may still have dirty blocks in the cache; those were missing in the copy.
---
 src/s3ql/block_cache.py | 5 +++++
 src/s3ql/fs.py          | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 1f0d588..32eeffb 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -850,6 +850,11 @@ class BlockCache:
 
         el.flush()
 
+    def get_dirty_inodes(self) -> set[InodeT]:
+        """Return the inodes that have dirty blocks"""
+
+        return {el.inode for el in self.cache.values() if el.dirty}
+
     async def start_flush(self, inode: InodeT | None = None) -> None:
         """Initiate upload of all dirty blocks
 
diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index c442ae9..07d6194 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -543,6 +543,9 @@ class Operations(pyfuse3.Operations):
         queue: list[tuple[InodeT, InodeT, int]] = [(src_id, tmp.id, -1)]
         id_cache: dict[InodeT, InodeT] = dict()
 
+        # Blocks may still be dirty when the kernel has already forgotten the inode
+        dirty_inodes = self.cache.get_dirty_inodes()
+
         # Batching updates makes things much faster when using WAL. We don't want to rollback on
         # error, because in that case the database gets out of sync with the inode cache (which
         # probably makes things worse).
@@ -561,7 +564,7 @@ class Operations(pyfuse3.Operations):
                         name_id = cast(int, row[0])
                         id_ = cast(InodeT, row[1])
                         # Make sure that all blocks are in the database
-                        if id_ in self.open_inodes:
+                        if id_ in self.open_inodes or id_ in dirty_inodes:
                             await self.cache.start_flush(id_)
 
                         if id_ not in id_cache:
-- 
2.43.0


From 3a1c60c98a951a2dd488443c9b49aaccf56edb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 07/94] fix: start_flush() must not skip blocks whose checksum
 is being computed

Such blocks are marked as in transit but not registered in the database
yet, so that replicating a tree at that moment missed them.
---
 src/s3ql/block_cache.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 32eeffb..e698512 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -866,6 +866,11 @@ class BlockCache:
         for el in self.cache.mutable_values():
             if inode is not None and el.inode != inode:
                 continue
+            if el.in_transit:
+                # The checksum may still be being calculated, in which case the block is not yet
+                # registered in the database (and upload_if_dirty() does not wait for that).
+                async with self.block_lock(el.key):
+                    pass
             await self.upload_if_dirty(el)
 
     async def flush(self) -> None:
-- 
2.43.0


From 36f875b57ec622072f0147429189fd82641b7e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 08/94] fix: fsck.s3ql must repeat interrupted uploads of
 cached blocks

If the process got killed while uploading a block, the block was already registered in the
database with its hash. The check then considered the cached copy to be clean and removed it,
although the object had never reached the backend.
---
 src/s3ql/fsck.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 097b095..b1a3439 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -270,7 +270,7 @@ class Fsck:
             # Check if stored object has same checksum
             try:
                 row = self.conn.get_row(
-                    'SELECT obj_id, hash '
+                    'SELECT obj_id, hash, phys_size '
                     'FROM inode_blocks JOIN objects ON obj_id = objects.id '
                     'WHERE inode=? AND blockno=?',
                     (
@@ -281,11 +281,13 @@ class Fsck:
             except NoSuchRowError:
                 pass
             else:
-                (obj_id, hash_is) = row
+                (obj_id, hash_is, phys_size) = row
                 assert isinstance(obj_id, int)
                 assert hash_is is None or isinstance(hash_is, bytes)
                 if hash_is is None:
                     log.debug('Object %d has NULL hash, treating cached block as dirty', obj_id)
+                elif phys_size == -1:
+                    log.debug('Upload of object %d did not complete, repeating', obj_id)
                 elif hash_should == hash_is:
                     if not keep_cache:
                         os.unlink(os.path.join(self.cachedir, filename))
@@ -295,23 +297,28 @@ class Fsck:
             self.log_error("Writing dirty block %d of inode %d to backend", blockno, inode)
 
             try:
-                obj_id = self.conn.get_int_val(
-                    'SELECT id FROM objects WHERE hash=?', (hash_should,)
+                (obj_id, phys_size) = self.conn.get_row_typed(
+                    (int, int), 'SELECT id, phys_size FROM objects WHERE hash=?', (hash_should,)
                 )
 
             except NoSuchRowError:
+                phys_size = -1
                 obj_id = self.conn.rowid(
                     'INSERT INTO objects (refcount, phys_size, length, hash) VALUES(1, -1, ?, ?)',
                     (size, hash_should),
                 )
 
+            else:
+                self.conn.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
+
+            # If the object is already known but its upload was interrupted, the backend may not
+            # have it.
+            if phys_size == -1:
                 with open(os.path.join(self.cachedir, filename), "rb") as fh:
                     size = os.fstat(fh.fileno()).st_size
                     obj_size = await self.backend.write_fh('s3ql_data_%d' % obj_id, fh, size)
 
                 self.conn.execute('UPDATE objects SET phys_size=? WHERE id=?', (obj_size, obj_id))
-            else:
-                self.conn.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
 
             try:
                 old_obj_id = self.conn.get_int_val(
@@ -334,7 +341,8 @@ class Fsck:
                 self.conn.execute(
                     'UPDATE objects SET refcount=refcount-1 WHERE id=?', (old_obj_id,)
                 )
-                self.unlinked_objects.add(old_obj_id)
+                if old_obj_id != obj_id:
+                    self.unlinked_objects.add(old_obj_id)
 
             if not keep_cache:
                 os.unlink(os.path.join(self.cachedir, filename))
-- 
2.43.0


From 44eb0b3a0ea252c6c7234f7dd111a163827bc4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 09/94] fix: fsck.s3ql must remove names that are not
 referenced

The refcounts table contains all names, so the count was never NULL and unused names were kept
with a reference count of zero.
---
 src/s3ql/fsck.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index b1a3439..484ce85 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -879,16 +879,16 @@ class Fsck:
                SELECT names.id, refcounts.refcount, names.refcount
                  FROM names LEFT JOIN refcounts ON %(dbf)snames.id = %(dbf)srefcounts.id
                 WHERE names.refcount != refcounts.refcount
-                   OR %(dbf)srefcounts.refcount IS NULL'''
+                   OR %(dbf)srefcounts.refcount = 0'''
                 % self.conn.fixes
             )
 
             for row in self.conn.query('SELECT * FROM wrong_refcounts'):
                 id_ = cast(int, row[0])
-                cnt = cast(int | None, row[1])
+                cnt = cast(int, row[1])
                 cnt_old = cast(int, row[2])
                 self.found_errors = True
-                if cnt is None:
+                if cnt == 0:
                     self.log_error(
                         "Name %d not referenced, removing (old refcount: %d)", id_, cnt_old
                     )
-- 
2.43.0


From 8732e8257af30669ce84e1859aa8d6c87672e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 10/94] fix: recover from a crash before the final superblock
 upload

If the process died between writing the local and the remote superblock at unmount, both have the
same sequence number but only the remote one is marked as mounted. mount.s3ql then failed with an
AssertionError, and fsck.s3ql considered the file system clean.
---
 src/s3ql/fsck.py  | 3 ++-
 src/s3ql/mount.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 484ce85..b831a4f 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -1325,12 +1325,13 @@ async def fsck(
     local_param = read_cached_params(cachepath, min_seq=param.seq_no)
     if local_param is not None:
         log.info('Using cached metadata.')
+        remote_outdated = local_param != param
         param = local_param
         db = Connection(cachepath + '.db', param.metadata_block_size)
         if param.is_mounted:
             log.info('File system was not unmounted cleanly')
             param.needs_fsck = True
-        if local_param.seq_no > param.seq_no:
+        if remote_outdated:
             log.info('Remote metadata is outdated.')
             param.needs_fsck = True
 
diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index 2b23796..785ae26 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -583,10 +583,11 @@ async def get_metadata(
     param = await read_remote_params(backend)
     local_param = read_cached_params(cachepath, min_seq=param.seq_no)
     if local_param is not None:
-        if local_param.seq_no > param.seq_no:
+        # If there was a crash before the superblock was uploaded, the sequence numbers may be the
+        # same.
+        if local_param != param:
             raise QuietError("File system not unmounted cleanly, run fsck!", exitcode=30)
         log.info('Using cached metadata.')
-        assert local_param == param
         db = Connection(cachepath + '.db', param.metadata_block_size)
 
     if param.is_mounted:
-- 
2.43.0


From cc58e1ae866141ad5a072bb9039fbefa33ce2e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 11/94] fix: create symlinks atomically

A crash after creating the inode left a symlink without target, which fsck.s3ql reports on every
run but cannot repair.
---
 src/s3ql/fs.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 07d6194..b9557cb 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -765,10 +765,18 @@ class Operations(pyfuse3.Operations):
         # with this size. If the kernel ever learns to open and read
         # symlinks directly, it will read the corresponding number of \0
         # bytes.
-        inode = self._create(id_p, name, mode, ctx, size=len(target))
-        self.db.execute(
-            'INSERT INTO symlink_targets (inode, target) VALUES(?,?)', (inode.id, target)
-        )
+        #
+        # Make both changes at once, because fsck.s3ql cannot restore the target of a symlink that was
+        # left without one by a crash. Never roll back, that could also undo changes of other inodes
+        # that happen to get flushed from the inode cache meanwhile.
+        self.db.execute('SAVEPOINT symlink')
+        try:
+            inode = self._create(id_p, name, mode, ctx, size=len(target))
+            self.db.execute(
+                'INSERT INTO symlink_targets (inode, target) VALUES(?,?)', (inode.id, target)
+            )
+        finally:
+            self.db.execute('RELEASE symlink')
         self.open_inodes[inode.id] += 1
         return inode.entry_attributes()
 
-- 
2.43.0


From ce932ddc5dffad98b31659ef42a63a593057fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 12/94] fix: metadata upload must wait for batched transactions

The periodic metadata upload releases the database lock to create a consistent snapshot. This failed
with a BusyError (taking down the file system) if it happened while a tree was being replicated or
removed, because there was an open transaction at that point.
---
 src/s3ql/database.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index d392a2d..e3b68f5 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -193,6 +193,9 @@ class Connection:
         # Set to a trio.Event while inhibit_writes is active, None otherwise.
         self._inhibit_writes_event: trio.Event | None = None
 
+        # Set while a batched transaction is open, triggered when it is committed
+        self._batch_event: trio.Event | None = None
+
         cur = self.conn.cursor()
 
         # We initialize in NORMAL locking mode before entering WAL mode, then switch to
@@ -336,6 +339,17 @@ class Connection:
 
         log.debug('inhibit_writes: starting')
         self._inhibit_writes_event = trio.Event()
+
+        # The exclusive lock can not be released while there is a (batched) transaction open. Once
+        # the current batch is complete, checkpoint() stops the next one from being started.
+        try:
+            while self._batch_event is not None:
+                await self._batch_event.wait()
+        except BaseException:
+            self._inhibit_writes_event.set()
+            self._inhibit_writes_event = None
+            raise
+
         sqlite3ext.set_writes_inhibited(True)
 
         # Switch to NORMAL locking mode temporarily so we can open a second connection.
@@ -622,22 +636,28 @@ class BatchedTransactionManager:
         traceback: TracebackType | None,
     ) -> None:
         if self.in_tx:
-            self.conn.execute('COMMIT')
-            self.in_tx = False
+            self._commit()
 
     async def start_batch(self) -> None:
         self.stamp = time.time()
         self.conn.execute('BEGIN TRANSACTION')
+        self.conn._batch_event = trio.Event()
         self.in_tx = True
 
+    def _commit(self) -> None:
+        self.conn.execute('COMMIT')
+        self.in_tx = False
+        if self.conn._batch_event is not None:
+            self.conn._batch_event.set()
+            self.conn._batch_event = None
+
     async def finish_batch(self, processed: int) -> None:
         '''Finish current batch and checkpoint.'''
 
         if not self.in_tx:
             raise RuntimeError('No active batch')
 
-        self.conn.execute('COMMIT')
-        self.in_tx = False
+        self._commit()
         await self.conn.checkpoint()
         dt = time.time() - self.stamp
         self.batch_size = max(
-- 
2.43.0


From a366c9c5cdadfed29501e5f9f56feb44029b6682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 13/94] fix: replicated files must not have blocks beyond their
 end

copy_tree() may run while a file is being written or truncated. The file size was updated after the
first block was written (so that it could already be replicated) and before excess blocks were
removed. The copy then had blocks (or parts of blocks) behind its end, showing up as old data when
the copy gets extended and as an error in fsck.s3ql.
---
 src/s3ql/fs.py | 59 ++++++++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index b9557cb..0256321 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -1008,35 +1008,37 @@ class Operations(pyfuse3.Operations):
             cutoff = len_ % self.max_obj_size
             total_blocks = int(math.ceil(inode.size / self.max_obj_size))
 
-            # Adjust file size
-            inode.size = len_
-
             # Delete blocks and truncate last one if required
-            if cutoff == 0:
-                await self.cache.remove(id_, last_block, total_blocks)
-            else:
-                await self.cache.remove(id_, last_block + 1, total_blocks)
-                try:
+            try:
+                if cutoff == 0:
+                    await self.cache.remove(id_, last_block, total_blocks)
+                else:
+                    await self.cache.remove(id_, last_block + 1, total_blocks)
                     async with self.cache.get(id_, last_block) as cache_entry:
                         cache_entry.truncate(cutoff)
-                except NoSuchObject as exc:
-                    log.warning(
-                        'Backend lost block %d of inode %d (id %s)!', last_block, id_, exc.key
-                    )
-                    self.failsafe = True
-                    self.broken_blocks[id_].add(last_block)
-                    raise FUSEError(errno.EIO)
-
-                except CorruptedObjectError as exc:
-                    log.warning(
-                        'Backend returned malformed data for block %d of inode %d (%s)',
-                        last_block,
-                        id_,
-                        exc,
-                    )
-                    self.failsafe = True
-                    self.broken_blocks[id_].add(last_block)
-                    raise FUSEError(errno.EIO)
+
+            except NoSuchObject as exc:
+                log.warning('Backend lost block %d of inode %d (id %s)!', last_block, id_, exc.key)
+                self.failsafe = True
+                self.broken_blocks[id_].add(last_block)
+                raise FUSEError(errno.EIO)
+
+            except CorruptedObjectError as exc:
+                log.warning(
+                    'Backend returned malformed data for block %d of inode %d (%s)',
+                    last_block,
+                    id_,
+                    exc,
+                )
+                self.failsafe = True
+                self.broken_blocks[id_].add(last_block)
+                raise FUSEError(errno.EIO)
+
+            finally:
+                # Adjust file size last, so that there is no point at which the file has blocks
+                # beyond its end (which would then be replicated by a concurrent copy_tree()).
+                inode = self.inodes[id_]
+                inode.size = len_
 
         return inode.entry_attributes()
 
@@ -1368,6 +1370,11 @@ class Operations(pyfuse3.Operations):
                 if write:
                     assert buf is not None
                     fh.write(buf[:length])
+
+                    # Adjust the file size before the block can get uploaded, there must be no
+                    # blocks beyond the end of the file.
+                    inode = self.inodes[id_]
+                    inode.size = max(inode.size, offset + length)
                 else:
                     buf = fh.read(length)
 
-- 
2.43.0


From 9c2e7430ad433bb54129411049e863bf338165b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 14/94] fix: tree removal must tolerate concurrent removals

If another process removed or renamed a file while its directory was being removed with s3qlrm, the
file system was terminated by an unhandled exception.
---
 src/s3ql/fs.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 0256321..5d9e374 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -469,6 +469,9 @@ class Operations(pyfuse3.Operations):
                 for row in query_chunk:
                     name = cast(bytes, row[0])
                     id_ = cast(InodeT, row[2])
+                    if not self._has_entry(id_p, name, id_):
+                        # Someone else was faster
+                        continue
                     if conn.has_val('SELECT 1 FROM contents WHERE parent_inode=?', (id_,)):
                         # First delete subdirectories
                         if not reinserted:
@@ -505,11 +508,21 @@ class Operations(pyfuse3.Operations):
             # window in which the file could be looked up again and would also impose a performance
             # penalty for something that is exceedingly rare. Tracked in https://github.com/s3ql/s3ql/issues/319.
             pyfuse3.invalidate_entry_async(id_p0, name0, deleted=id0, ignore_enoent=True)
-        await self._remove(id_p0, name0, id0, force=True)
-
-        await self.forget([(id0, 1)])
+        try:
+            if self._has_entry(id_p0, name0, id0):
+                await self._remove(id_p0, name0, id0, force=True)
+        finally:
+            await self.forget([(id0, 1)])
         log.debug('finished')
 
+    def _has_entry(self, id_p: InodeT, name: bytes, id_: InodeT) -> bool:
+        '''Return True if *id_p* has an entry *name* that refers to *id_*'''
+
+        return self.db.has_val(
+            'SELECT 1 FROM contents_v WHERE parent_inode=? AND name=? AND inode=?',
+            (id_p, name, id_),
+        )
+
     async def copy_tree(self, src_id: InodeT, target_id: InodeT) -> None:
         '''Efficiently copy directory tree'''
 
-- 
2.43.0


From 689b44389621d98b45eee0c0e1fb430c7adfcc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 15/94] fix: rename() into a removed directory must fail

Like create() and link(), rename() may be called for a directory that was just removed by s3qlrm and
that the kernel still considers to exist. The entry was then left without a parent directory.
---
 src/s3ql/fs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 5d9e374..16b0148 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -817,6 +817,12 @@ class Operations(pyfuse3.Operations):
         if self.failsafe or self.inodes[id_p_old].locked or self.inodes[id_p_new].locked:
             raise FUSEError(errno.EPERM)
 
+        if self.inodes[id_p_new].refcount == 0:
+            log.warning(
+                'Attempted to move entry %s into unlinked directory %d', name_old, id_p_new
+            )
+            raise FUSEError(errno.EINVAL)
+
         inode_old = self._lookup(id_p_old, name_old, ctx)
 
         try:
-- 
2.43.0


From 64711909dbbd8e390ccf9c0fe624e11c7c77816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 16/94] fix: replication must tolerate concurrent renames and
 removals

copy_tree() waits for blocks to be registered while it processes a directory. If the current entry was
renamed or removed by someone else in that time, the copy got an entry without (or with a wrong) name
or the file system was terminated by an unhandled exception.
---
 src/s3ql/fs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 16b0148..df1dc94 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -580,6 +580,14 @@ class Operations(pyfuse3.Operations):
                         if id_ in self.open_inodes or id_ in dirty_inodes:
                             await self.cache.start_flush(id_)
 
+                            # The entry may have been renamed or removed while we were waiting
+                            if not db.has_val(
+                                'SELECT 1 FROM contents WHERE parent_inode=? AND name_id=? '
+                                'AND inode=?',
+                                (src_id, name_id, id_),
+                            ):
+                                continue
+
                         if id_ not in id_cache:
                             inode = self.inodes[id_]
                             inode_new = make_inode(
-- 
2.43.0


From 0cc478ff8dd0905037709c3d7e72384174db40f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 17/94] fix: fsck.s3ql must release objects of missing inodes
 in one run

---
 src/s3ql/fsck.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index b831a4f..5633108 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -152,6 +152,9 @@ class Fsck:
             self.check_contents_inode()
             self.check_contents_parent_inode()
 
+            # Must run before the objects are checked, because it may release objects
+            self.check_inode_blocks_inode()
+
             self.check_objects_temp()
             self.check_objects_hash()
             await self.check_objects_refcount()
@@ -160,7 +163,6 @@ class Fsck:
             # TODO: Are there any checks we could do on objects.length?
 
             self.check_inode_blocks_obj_id()
-            self.check_inode_blocks_inode()
 
             self.check_inodes_refcount()
             self.check_inodes_size()
-- 
2.43.0


From c1e20317d03c44d1eaded437b221238a3f628a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 18/94] fix: blocks sharing an object that is still being
 uploaded must stay dirty

---
 src/s3ql/block_cache.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index e698512..677abc2 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -460,6 +460,7 @@ class BlockCache:
             raise
 
         upload_registered = False
+        upload_pending = False
         try:
             try:
                 old_obj_id: int | None = self.db.get_int_val(
@@ -507,14 +508,18 @@ class BlockCache:
                         (obj_id, el.inode, el.blockno),
                     )
 
-                el.dirty = False
+                # As long as the object is still being uploaded, the upload may fail. Therefore, the
+                # block has to stay dirty (and thus in the cache) until the outcome is known.
+                upload_pending = obj_id in self.in_flight_uploads
+                if not upload_pending:
+                    el.dirty = False
                 self._unmark_in_transit(el)
                 set_in_transit = False
                 await self.block_lock.release(el.key)
 
                 if old_obj_id == obj_id:
                     log.debug('unchanged, obj_id=%d', obj_id)
-                    return False
+                    return upload_pending
 
         except:
             if set_in_transit:
@@ -531,7 +536,7 @@ class BlockCache:
         else:
             log.debug('no old object')
 
-        return upload_registered
+        return upload_registered or upload_pending
 
     async def _deref_obj(self, obj_id: int) -> None:
         '''Decrease reference count for *obj_id*
-- 
2.43.0


From bcf141ad092924a852c08c00aa92c518ec51a51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 19/94] fix: fsck.s3ql must cope with a lost+found entry
 without inode

---
 src/s3ql/fsck.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 5633108..2169e73 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -390,7 +390,10 @@ class Fsck:
                     (self._add_name(b"lost+found"), inode_l, ROOT_INODE),
                 )
 
-        mode = self.conn.get_int_val('SELECT mode FROM inodes WHERE id=?', (inode_l,))
+        try:
+            mode = self.conn.get_int_val('SELECT mode FROM inodes WHERE id=?', (inode_l,))
+        except NoSuchRowError:
+            mode = 0
         if not stat.S_ISDIR(mode):
             self.found_errors = True
             self.log_error(
-- 
2.43.0


From cfca2289e654f291aec70f19bda187ae0aae2ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 20/94] fix: fsck.s3ql must store replacement names of
 attributes as bytes

---
 src/s3ql/fsck.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 2169e73..fd8d7a7 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -527,7 +527,7 @@ class Fsck:
                 )
 
             while True:
-                new_name_id = self._add_name('lost+found_%d' % rowid)
+                new_name_id = self._add_name(b'lost+found_%d' % rowid)
                 if not self.conn.has_val(
                     "SELECT 1 FROM ext_attributes WHERE name_id=? AND inode=?", (new_name_id, inode)
                 ):
@@ -1234,7 +1234,7 @@ class Fsck:
 
         return (inode_p, newname)
 
-    def _add_name(self, name: bytes | str) -> int:
+    def _add_name(self, name: bytes) -> int:
         '''Get id for *name* and increase refcount
 
         Name is inserted in table if it does not yet exist.
-- 
2.43.0


From ea47b2835e47d24f1df384af87036e8dffb96fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 21/94] fix: fsck.s3ql must not crash on entries without a path

---
 src/s3ql/fsck.py | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index fd8d7a7..330778a 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -428,7 +428,7 @@ class Fsck:
             self.found_errors = True
             try:
                 path = get_path(inode_p, self.conn)[1:]
-            except NoSuchRowError:
+            except (NoSuchRowError, RuntimeError):
                 newname = ('-%d' % inode).encode()
             else:
                 newname = escape(path) + ('-%d' % inode).encode()
@@ -490,7 +490,7 @@ class Fsck:
             self.found_errors = True
             try:
                 path: bytes | str = get_path(inode, self.conn)[1:]
-            except NoSuchRowError:
+            except (NoSuchRowError, RuntimeError):
                 path = '[inode %d, parent %d]' % (inode, inode_p)
 
             self.log_error(
@@ -518,7 +518,7 @@ class Fsck:
             for name, id_p in self.conn.query_typed(
                 (bytes, InodeT), 'SELECT name, parent_inode FROM contents_v WHERE inode=?', (inode,)
             ):
-                path = get_path(id_p, self.conn, name)
+                path = self._get_path(id_p, name)
                 self.log_error(
                     'Extended attribute %d of %s refers to non-existing name %d, renaming..',
                     rowid,
@@ -664,7 +664,7 @@ class Fsck:
                     "Size of inode %d (%s) does not agree with number of blocks, "
                     "setting from %d to %d",
                     id_,
-                    to_str(get_path(cast(InodeT, id_), self.conn)),
+                    to_str(self._get_path(cast(InodeT, id_))),
                     size_old,
                     size,
                 )
@@ -721,7 +721,7 @@ class Fsck:
                     self.log_error(
                         "Inode %d (%s) has wrong reference count, setting from %d to %d",
                         id_,
-                        to_str(get_path(cast(InodeT, id_), self.conn)),
+                        to_str(self._get_path(cast(InodeT, id_))),
                         cnt_old,
                         cnt,
                     )
@@ -784,7 +784,7 @@ class Fsck:
                 )
             )
             for name, name_id, id_p in affected_entries:
-                path = get_path(cast(InodeT, id_p), self.conn, name)
+                path = self._get_path(cast(InodeT, id_p), name)
                 self.log_error("File may lack data, moved to /lost+found: %s", to_str(path))
                 (lof_id, newname) = self.resolve_free(b"/lost+found", escape(path))
 
@@ -955,7 +955,7 @@ class Fsck:
                 self.log_error(
                     'Inode %d (%s): directory entry has no type, changed to %s.',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                     made_to,
                 )
                 self.conn.execute('UPDATE inodes SET mode=? WHERE id=?', (mode, inode))
@@ -966,7 +966,7 @@ class Fsck:
                     'Inode %d (%s): symlink does not have target. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if stat.S_ISLNK(mode) and target is not None and size != len(target):
@@ -975,7 +975,7 @@ class Fsck:
                     'Inode %d (%s): symlink size (%d) does not agree with target '
                     'length (%d). This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                     size,
                     len(target),
                 )
@@ -988,7 +988,7 @@ class Fsck:
                     'Inode %d (%s) is not regular file but has non-zero size. '
                     'This is may confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if target is not None and not stat.S_ISLNK(mode):
@@ -997,7 +997,7 @@ class Fsck:
                     'Inode %d (%s) is not symlink but has symlink target. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if rdev != 0 and not (stat.S_ISBLK(mode) or stat.S_ISCHR(mode)):
@@ -1006,7 +1006,7 @@ class Fsck:
                     'Inode %d (%s) is not device but has device number. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if has_children and not stat.S_ISDIR(mode):
@@ -1015,7 +1015,7 @@ class Fsck:
                     'Inode %d (%s) is not a directory but has child entries. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if not stat.S_ISREG(mode) and self.conn.has_val(
@@ -1026,13 +1026,13 @@ class Fsck:
                     'Inode %d (%s) is not a regular file but has data blocks. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
         for name, id_p in self.conn.query_typed(
             (bytes, InodeT), 'SELECT name, parent_inode FROM contents_v WHERE LENGTH(name) > 255'
         ):
-            path = get_path(id_p, self.conn, name)
+            path = self._get_path(id_p, name)
             self.log_error(
                 'Entry name %s... in %s has more than 255 characters, this could cause problems',
                 to_str(name[:40]),
@@ -1234,6 +1234,19 @@ class Fsck:
 
         return (inode_p, newname)
 
+    def _get_path(self, inode: InodeT, name: bytes | None = None) -> bytes:
+        '''Return path of *inode*
+
+        In contrast to `get_path()`, this also works for entries that are not reachable from the
+        root directory (yet).
+        '''
+
+        try:
+            return get_path(inode, self.conn, name)
+        except (NoSuchRowError, RuntimeError):
+            path = b'/[inode %d]' % inode
+            return path if name is None else path + b'/' + name
+
     def _add_name(self, name: bytes) -> int:
         '''Get id for *name* and increase refcount
 
-- 
2.43.0


From 488771ec1042d75cc26c2d49f8177b48c09e5732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 22/94] fix: fsck.s3ql must not give new names the id of
 missing ones

---
 src/s3ql/fsck.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 330778a..4f954af 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -1256,7 +1256,15 @@ class Fsck:
         try:
             name_id = self.conn.get_int_val('SELECT id FROM names WHERE name=?', (name,))
         except NoSuchRowError:
-            name_id = self.conn.rowid('INSERT INTO names (name, refcount) VALUES(?,?)', (name, 1))
+            # There may be references to names that no longer exist. Make sure that these do not
+            # suddenly point to the new name.
+            name_id = self.conn.rowid(
+                'INSERT INTO names (id, name, refcount) VALUES('
+                'MAX(IFNULL((SELECT MAX(id) FROM names), 0), '
+                'IFNULL((SELECT MAX(name_id) FROM contents), 0), '
+                'IFNULL((SELECT MAX(name_id) FROM ext_attributes), 0)) + 1, ?, ?)',
+                (name, 1),
+            )
         else:
             self.conn.execute('UPDATE names SET refcount=refcount+1 WHERE id=?', (name_id,))
         return name_id
-- 
2.43.0


From 72565cd016e17c21eaf28194ada9f7e112805efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 23/94] fix: fsck.s3ql must move just the entry when
 re-anchoring lost+found

---
 src/s3ql/fsck.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 4f954af..b1a1f9e 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -374,7 +374,8 @@ class Fsck:
                 )
                 self.log_error("Moving lost+found directory to root")
                 self.conn.execute(
-                    "UPDATE contents SET parent_inode = ? WHERE inode = ?", (ROOT_INODE, inode_l)
+                    "UPDATE contents SET parent_inode = ? WHERE name_id = ? AND parent_inode = ?",
+                    (ROOT_INODE, name_id, inode_l),
                 )
             except NoSuchRowError:
                 self.log_error("Recreating missing lost+found directory")
-- 
2.43.0


From 1b320f49da36008e6363c4574d232cf23bbe4412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 24/94] fix: do not crash on directories nested more than 255
 levels deep

---
 src/s3ql/fs.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index df1dc94..28d4cce 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -25,7 +25,7 @@ from pyfuse3 import EntryAttributes, FileHandleT, FUSEError, InodeT, RequestCont
 
 from . import CTRL_INODE, CTRL_NAME
 from .backends.common import CorruptedObjectError, NoSuchObject
-from .common import get_path, parse_literal, parse_literal_tuple, time_ns
+from .common import parse_literal, parse_literal_tuple, time_ns
 from .database import Connection, NoSuchRowError
 
 if TYPE_CHECKING:
@@ -738,7 +738,7 @@ class Operations(pyfuse3.Operations):
 
         # Check that there are no child entries
         if self.db.has_val("SELECT 1 FROM contents WHERE parent_inode=?", (id_,)):
-            log.debug("Attempted to remove entry with children: %s", get_path(id_p, self.db, name))
+            log.debug("Attempted to remove entry with children: %d/%r", id_p, name)
             raise FUSEError(errno.ENOTEMPTY)
 
         if self.inodes[id_p].locked and not force:
@@ -816,9 +816,11 @@ class Operations(pyfuse3.Operations):
         log.debug('started with %d, %r, %d, %r', id_p_old, name_old, id_p_new, name_new)
         if name_new == CTRL_NAME or name_old == CTRL_NAME:
             log.warning(
-                'Attempted to rename s3ql control file (%s -> %s)',
-                get_path(id_p_old, self.db, name_old),
-                get_path(id_p_new, self.db, name_new),
+                'Attempted to rename s3ql control file (%d/%r -> %d/%r)',
+                id_p_old,
+                name_old,
+                id_p_new,
+                name_new,
             )
             raise FUSEError(errno.EACCES)
 
@@ -917,10 +919,7 @@ class Operations(pyfuse3.Operations):
         now_ns = time_ns()
 
         if self.db.has_val("SELECT 1 FROM contents WHERE parent_inode=?", (id_new,)):
-            log.info(
-                "Attempted to overwrite entry with children: %s",
-                get_path(id_p_new, self.db, name_new),
-            )
+            log.info("Attempted to overwrite entry with children: %d/%r", id_p_new, name_new)
             raise FUSEError(errno.ENOTEMPTY)
 
         # Replace target
@@ -957,9 +956,7 @@ class Operations(pyfuse3.Operations):
         log.debug('started with %d, %d, %r', id_, new_id_p, new_name)
 
         if new_name == CTRL_NAME or id_ == CTRL_INODE:
-            log.warning(
-                'Attempted to create s3ql control file at %s', get_path(new_id_p, self.db, new_name)
-            )
+            log.warning('Attempted to create s3ql control file at %d/%r', new_id_p, new_name)
             raise FUSEError(errno.EACCES)
 
         now_ns = time_ns()
@@ -1241,9 +1238,7 @@ class Operations(pyfuse3.Operations):
         size: int = 0,
     ) -> _Inode:
         if name == CTRL_NAME:
-            log.warning(
-                'Attempted to create s3ql control file at %s', get_path(id_p, self.db, name)
-            )
+            log.warning('Attempted to create s3ql control file at %d/%r', id_p, name)
             raise FUSEError(errno.EACCES)
 
         now_ns = time_ns()
-- 
2.43.0


From 0a153feb983b87b64f49f206137b6fb8f4561615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 25/94] fix: fsck.s3ql must not fail on deeply nested
 directories

---
 src/s3ql/fsck.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index b1a1f9e..a1dbe9a 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -583,11 +583,20 @@ class Fsck:
         self.conn.execute('INSERT INTO loopcheck2 (inode) SELECT inode FROM loopcheck')
 
         def delete_tree(inode_p: InodeT) -> None:
-            for (inode,) in self.conn.query_typed(
-                (InodeT,), "SELECT inode FROM loopcheck WHERE parent_inode=?", (inode_p,)
-            ):
-                delete_tree(inode)
-            self.conn.execute('DELETE FROM loopcheck2 WHERE inode=?', (inode_p,))
+            # Not recursive, because directories may be nested deeply
+            queue = [inode_p]
+            while queue:
+                inode_p = queue.pop()
+                self.conn.execute('DELETE FROM loopcheck2 WHERE inode=?', (inode_p,))
+                queue.extend(
+                    inode
+                    for (inode,) in self.conn.query_typed(
+                        (InodeT,),
+                        'SELECT inode FROM loopcheck JOIN loopcheck2 USING (inode) '
+                        'WHERE loopcheck.parent_inode=?',
+                        (inode_p,),
+                    )
+                )
 
         root: InodeT = ROOT_INODE
         while True:
-- 
2.43.0


From 2892c2da8d94d586ef1911a86be4c2458fd1fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 26/94] fix: do not spin while a block waits for the upload of
 a shared object

---
 src/s3ql/mount.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index 785ae26..abac5eb 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -852,7 +852,10 @@ class CommitTask:
                     break
                 if el.dirty and not el.in_transit:
                     await self.block_cache.upload_if_dirty(el)
-                    did_sth = True
+                    # If the block shares an object that is still being uploaded, it remains dirty
+                    # and there is nothing to do until that upload has completed.
+                    if el.in_transit or not el.dirty:
+                        did_sth = True
 
             if not did_sth:
                 with trio.move_on_after(5):
-- 
2.43.0


From f3bd664922e30ba04ee3e4fff8ab04ec46375cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 27/94] fix: refuse names that are longer than 255 bytes

---
 src/s3ql/fs.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 28d4cce..94201e0 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -64,6 +64,10 @@ if not hasattr(errno, 'EOPNOTSUPP'):
 else:
     ACL_ERRNO = errno.EOPNOTSUPP
 
+# Longest permitted name of a directory entry. The kernel does not enforce this (the limit for FUSE
+# file systems is higher), but applications rely on it and fsck.s3ql complains about longer names.
+MAX_NAME_LEN = 255
+
 
 class _TruncSetattrFieldsC:
     """A private class used for O_TRUNC.
@@ -824,6 +828,9 @@ class Operations(pyfuse3.Operations):
             )
             raise FUSEError(errno.EACCES)
 
+        if len(name_new) > MAX_NAME_LEN:
+            raise FUSEError(errno.ENAMETOOLONG)
+
         if self.failsafe or self.inodes[id_p_old].locked or self.inodes[id_p_new].locked:
             raise FUSEError(errno.EPERM)
 
@@ -959,6 +966,9 @@ class Operations(pyfuse3.Operations):
             log.warning('Attempted to create s3ql control file at %d/%r', new_id_p, new_name)
             raise FUSEError(errno.EACCES)
 
+        if len(new_name) > MAX_NAME_LEN:
+            raise FUSEError(errno.ENAMETOOLONG)
+
         now_ns = time_ns()
         inode_p = self.inodes[new_id_p]
 
@@ -1241,6 +1251,9 @@ class Operations(pyfuse3.Operations):
             log.warning('Attempted to create s3ql control file at %d/%r', id_p, name)
             raise FUSEError(errno.EACCES)
 
+        if len(name) > MAX_NAME_LEN:
+            raise FUSEError(errno.ENAMETOOLONG)
+
         now_ns = time_ns()
         inode_p = self.inodes[id_p]
 
-- 
2.43.0


From fd3fd871b40c875f4368c733055d97814b3e3483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 28/94] fix: do not reuse the ids of objects that fsck.s3ql
 removes

---
 src/s3ql/fsck.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index a1dbe9a..719640e 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -1159,6 +1159,21 @@ class Fsck:
 
                 self.conn.execute('INSERT INTO obj_ids VALUES(?)', (obj_id,))
 
+            # Objects must never change their contents, so do not reuse the ids of objects that are
+            # only in the backend: other metadata backups may refer to them. (Ids so large that
+            # they cannot come from S3QL are ignored, so that we do not run out of ids).
+            (max_id,) = self.conn.get_row('SELECT MAX(id) FROM obj_ids WHERE id < 1 << 62')
+            if max_id is not None:
+                self.conn.execute(
+                    'INSERT INTO sqlite_sequence (name, seq) SELECT ?, 0 WHERE NOT EXISTS '
+                    '(SELECT 1 FROM sqlite_sequence WHERE name=?)',
+                    ('objects', 'objects'),
+                )
+                self.conn.execute(
+                    'UPDATE sqlite_sequence SET seq=? WHERE name=? AND seq < ?',
+                    (max_id, 'objects', max_id),
+                )
+
             for (obj_id,) in self.conn.query_typed(
                 (int,), 'SELECT id FROM obj_ids EXCEPT SELECT id FROM objects'
             ):
-- 
2.43.0


From dfafffd988e05bcca54f5cc6fa2885b4a71a1858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 29/94] fix: fsck.s3ql must not prefer outdated local metadata
 with the same sequence number

---
 src/s3ql/fsck.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 719640e..c346942 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -1374,6 +1374,14 @@ async def fsck(
 
     param = await read_remote_params(backend)
     local_param = read_cached_params(cachepath, min_seq=param.seq_no)
+    if (
+        local_param is not None
+        and local_param.seq_no == param.seq_no
+        and local_param.last_modified < param.last_modified
+    ):
+        # Somebody else used the same sequence number because we crashed before we could upload it.
+        log.info('Ignoring locally cached metadata (outdated).')
+        local_param = None
     if local_param is not None:
         log.info('Using cached metadata.')
         remote_outdated = local_param != param
-- 
2.43.0


From 9416152e9d4ebf23055236531b134103c9eb03b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 30/94] fix: s3qladm restore-metadata left outdated parameters
 and cached blocks in the cache directory

---
 src/s3ql/adm.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/s3ql/adm.py b/src/s3ql/adm.py
index 01871b3..4e9975e 100644
--- a/src/s3ql/adm.py
+++ b/src/s3ql/adm.py
@@ -560,6 +560,18 @@ async def restore_metadata(
 
     params = await read_remote_params(backend, seq_no=seq_no)
 
+    # If the download is interrupted, the local metadata must not be taken for what it was before.
+    if os.path.exists(cachepath + '.params'):
+        os.unlink(cachepath + '.params')
+
+    # Cached blocks belong to different metadata
+    if os.path.exists(cachepath + '-cache') and os.listdir(cachepath + '-cache'):
+        i = 0
+        while os.path.exists(f'{cachepath}-cache.bak{i}'):
+            i += 1
+        log.warning('Renaming outdated cache directory %s to .bak%d', cachepath + '-cache', i)
+        os.rename(cachepath + '-cache', f'{cachepath}-cache.bak{i}')
+
     log.info('Downloading metadata...')
     conn = await download_metadata(
         backend,
-- 
2.43.0


From 7c2a32555c64c1703577fa96f869ee00a829a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 31/94] fix: remove stale write-ahead log before downloading
 metadata

---
 src/s3ql/database.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index e3b68f5..22b2102 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -1055,6 +1055,11 @@ async def download_metadata(
     contain holes if blocks are missing.
     '''
 
+    # A write-ahead log left behind by a crash must not be applied to the downloaded database.
+    for suffix in ('-wal', '-shm'):
+        if os.path.exists(db_file + suffix):
+            os.unlink(db_file + suffix)
+
     op = DownloadMetadata(backend=backend, db_file=db_file, params=params, failsafe=failsafe)
     await op.run(n_workers=backend.max_connections + backend.max_threads)
     return Connection(db_file, params.metadata_block_size)
-- 
2.43.0


From 474276af2485d812494b8e7b06a996037b4ee8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 32/94] fix: bzip2 has no compression level 0, uploads failed
 with ValueError

---
 src/s3ql/backends/comprenc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index 1c93410..daae29a 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -466,7 +466,7 @@ class AsyncComprencBackend(AsyncBackend):
             if algorithm is CompressAlgorithm.ZLIB:
                 compr: CompressorProtocol = zlib.compressobj(level)
             elif algorithm is CompressAlgorithm.BZIP2:
-                compr = bz2.BZ2Compressor(level)
+                compr = bz2.BZ2Compressor(max(level, 1))  # there is no level 0
             elif algorithm is CompressAlgorithm.LZMA:
                 compr = lzma.LZMACompressor(preset=level)
             buf = io.BytesIO()
-- 
2.43.0


From a483cd3425d1609e74feed2a149f446b53957b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 33/94] fix: malformed object metadata raised other exceptions
 than ThawError or CorruptedObjectError

---
 src/s3ql/backends/comprenc.py | 5 ++++-
 src/s3ql/backends/local.py    | 2 +-
 src/s3ql/common.py            | 9 ++++++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index daae29a..3ae0640 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -253,7 +253,10 @@ class AsyncComprencBackend(AsyncBackend):
             raise CorruptedObjectError('signature should be bytes')
         assert self.passphrase is not None
         meta_key = sha256(self.passphrase + nonce + b'meta')
-        meta_sig = checksum_basic_mapping(metadata, meta_key)
+        try:
+            meta_sig = checksum_basic_mapping(metadata, meta_key)
+        except ValueError:
+            raise CorruptedObjectError('Invalid metadata')
         if not hmac.compare_digest(signature, meta_sig):
             raise CorruptedObjectError('HMAC mismatch')
 
diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index ceff60c..e39fe5b 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -270,7 +270,7 @@ class AsyncBackend(AsyncBackendBase):
 
 def _read_meta(fh: BinaryInput) -> BasicMappingT:
     buf = fh.read(9)
-    if not buf.startswith(b's3ql_1\n'):
+    if len(buf) != 9 or not buf.startswith(b's3ql_1\n'):
         raise CorruptedObjectError('Invalid object header: %r' % buf)
 
     len_ = struct.unpack('<H', buf[-2:])[0]
diff --git a/src/s3ql/common.py b/src/s3ql/common.py
index 4d2180c..99f01ef 100644
--- a/src/s3ql/common.py
+++ b/src/s3ql/common.py
@@ -341,11 +341,18 @@ def thaw_basic_mapping(buf: bytes | bytearray) -> BasicMappingT:
 
     try:
         d = literal_eval(buf.decode('utf-8'))
-    except (UnicodeDecodeError, SyntaxError, ValueError):
+    except (UnicodeDecodeError, SyntaxError, ValueError, TypeError, MemoryError, RecursionError):
+        raise ThawError()
+
+    if not isinstance(d, dict):
         raise ThawError()
 
     # Decode bytes values
     for k, v in d.items():
+        if not isinstance(k, str):
+            raise ThawError()
+        if v is not None and not isinstance(v, (str, bytes, int, float, complex)):
+            raise ThawError()
         if not isinstance(v, bytes):
             continue
         try:
-- 
2.43.0


From 0e9aed70332744f4367ca95a57b91fab1018c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 34/94] fix: do not take an unexpected or repeated 100 Continue
 for the final response

---
 src/s3ql/http.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/http.py b/src/s3ql/http.py
index d70dfc0..1dd344d 100644
--- a/src/s3ql/http.py
+++ b/src/s3ql/http.py
@@ -510,7 +510,7 @@ class HTTPConnection:
             return await self._read_response()
 
         if expect100:
-            resp = await self._read_response()
+            resp = await self._read_response(expect_continue=True)
             if resp.status != 100:
                 # Server rejected the body before it was sent. Once the
                 # caller has consumed the response body, `_finish_cycle`
@@ -594,8 +594,12 @@ class HTTPConnection:
         if data is not None:
             await self._raw_write(data)
 
-    async def _read_response(self) -> HTTPResponse:
-        '''Read the response status line and headers and return an `HTTPResponse`.'''
+    async def _read_response(self, expect_continue: bool = False) -> HTTPResponse:
+        '''Read the response status line and headers and return an `HTTPResponse`.
+
+        A ``100 Continue`` response is only returned if *expect_continue* is true. Otherwise it is
+        skipped like every other informational response (RFC 7231, section 6.2).
+        '''
 
         log.debug('start')
 
@@ -612,7 +616,7 @@ class HTTPConnection:
                 raise InvalidResponse(str(exc))
 
             if isinstance(event, h11.InformationalResponse):
-                if event.status_code == 100:
+                if event.status_code == 100 and expect_continue:
                     return HTTPResponse(
                         method=method,
                         path=path,
-- 
2.43.0


From 53ede86578bf6ce0e8384cccb381dc9256d442cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 35/94] fix: do not reuse connections that the server closes
 after rejecting or aborting an upload

---
 src/s3ql/http.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/http.py b/src/s3ql/http.py
index 1dd344d..729dc66 100644
--- a/src/s3ql/http.py
+++ b/src/s3ql/http.py
@@ -459,6 +459,7 @@ class HTTPConnection:
             or self._h11.their_state is h11.MUST_CLOSE
             or self._h11.our_state is h11.CLOSED
             or self._h11.their_state is h11.CLOSED
+            or self._h11.our_state is h11.ERROR
         ):
             raise ConnectionClosed('connection was marked must-close')
         if self._response_open or self._pending_method is not None:
@@ -525,6 +526,7 @@ class HTTPConnection:
             # error response, if any, may already be sitting in the
             # receive buffer; try to read it. Otherwise drop the
             # half-broken connection and re-raise.
+            self._h11.send_failed()
             try:
                 return await self._read_response()
             except Exception:
@@ -817,7 +819,7 @@ class HTTPConnection:
         self._pending_path = None
 
         assert self._h11 is not None
-        if self._h11.our_state is h11.SEND_BODY:
+        if self._h11.our_state is h11.SEND_BODY and self._h11.their_state is h11.DONE:
             # 100-continue rejection left our_state stuck in SEND_BODY; the
             # wire is still keep-alive-clean since neither side sent a body.
             self._h11 = h11.Connection(our_role=h11.CLIENT)
@@ -829,8 +831,9 @@ class HTTPConnection:
             or self._h11.their_state is h11.MUST_CLOSE
             or self._h11.our_state is h11.CLOSED
             or self._h11.their_state is h11.CLOSED
+            or self._h11.our_state is h11.ERROR
         ):
-            # Server signalled Connection: close; let the next send_request
+            # Server signalled Connection: close (or closed it while we were sending); let the next send_request
             # surface ConnectionClosed via its state check.
             pass
         else:
-- 
2.43.0


From 9c59d261f4d7e3a83bfbb16f612cc3b70b3957ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:28 +0000
Subject: [PATCH 36/94] fix: V4 signatures must cover the Host header that is
 sent (no-ssl)

---
 src/s3ql/backends/s3c4.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/s3c4.py b/src/s3ql/backends/s3c4.py
index 16c9af4..02db7e0 100644
--- a/src/s3ql/backends/s3c4.py
+++ b/src/s3ql/backends/s3c4.py
@@ -169,8 +169,9 @@ class AsyncBackend(s3c.AsyncBackend):
         ymd = time.strftime('%Y%m%d', now)
         ymdhms = time.strftime('%Y%m%dT%H%M%SZ', now)
 
-        # add non-standard port to host header, needed for correct signature
-        if self.port != 443:
+        # add non-standard port to host header, needed for correct signature (this has to agree
+        # with the header that `HTTPConnection` sends)
+        if self.port != (443 if self.ssl_context else 80):
             headers['host'] = '%s:%s' % (self.hostname, self.port)
 
         headers['x-amz-date'] = ymdhms
-- 
2.43.0


From 63c85eb033baee488c6ae3a72fc1630d3f2573fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:28 +0000
Subject: [PATCH 37/94] fix: local get_size() must raise NoSuchObject

---
 src/s3ql/backends/local.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index e39fe5b..05f0bd9 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -116,7 +116,10 @@ class AsyncBackend(AsyncBackendBase):
             raise NoSuchObject(key)
 
     async def get_size(self, key: str) -> int:
-        return os.path.getsize(self._key_to_path(key))
+        try:
+            return os.path.getsize(self._key_to_path(key))
+        except FileNotFoundError:
+            raise NoSuchObject(key)
 
     async def readinto_fh(self, key: str, ofh: BinaryOutput) -> BasicMappingT:
         '''Transfer data stored under *key* into *fh*, return metadata.
-- 
2.43.0


From 5bdfaa90b47d8a66f84aa966f62465d1b9f5bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 38/94] fix: metadata with leading, trailing or repeated spaces
 in headers was corrupted or rejected

---
 src/s3ql/backends/s3c.py   | 2 +-
 src/s3ql/backends/swift.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/s3c.py b/src/s3ql/backends/s3c.py
index 579fd12..a9f7d25 100644
--- a/src/s3ql/backends/s3c.py
+++ b/src/s3ql/backends/s3c.py
@@ -457,7 +457,7 @@ class AsyncBackend(AsyncBackendBase):
                 val = b64encode(val)
 
             buf = '%s: %s,' % (repr(key), repr(val))
-            buf = quote(buf, safe='!@#$^*()=+/?-_\'"><\\| `.,;:~')
+            buf = quote(buf, safe='!@#$^*()=+/?-_\'"><\\|`.,;:~')
             if len(buf) < chunksize:
                 headers['%smeta-%03d' % (self.hdr_prefix, hdr_count)] = buf
                 hdr_count += 1
diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 3b9396a..1b3da9b 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -129,7 +129,7 @@ class AsyncBackend(AsyncBackendBase):
                 val = b64encode(val)
 
             buf = '%s: %s,' % (repr(key), repr(val))
-            buf = quote(buf, safe='!@#$^*()=+/?-_\'"><\\| `.,;:~')
+            buf = quote(buf, safe='!@#$^*()=+/?-_\'"><\\|`.,;:~')
             if len(buf) < chunksize:
                 headers['%smeta-%03d' % (self.hdr_prefix, hdr_count)] = buf
                 hdr_count += 1
-- 
2.43.0


From f311b2a3f7d30758114158a298b3e1ab5626b733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 39/94] fix: Google Storage listings may contain empty pages

---
 src/s3ql/backends/gs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index d47c740..23442e4 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -393,8 +393,8 @@ class AsyncBackend(AsyncBackendBase):
         next_token: str | None = str(next_token_obj) if next_token_obj is not None else None
 
         if 'items' not in json_resp:
-            assert next_token is None
-            return ([], None)
+            # Not necessarily the last page
+            return ([], next_token)
 
         items = json_resp['items']
         assert isinstance(items, list)
-- 
2.43.0


From 5330bcb85529251d567756ad4eb7fb5073422c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 40/94] fix: Google Storage: retry if the token server has a
 temporary problem

---
 src/s3ql/backends/gs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index 23442e4..dd6ebdc 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -611,6 +611,11 @@ class AsyncBackend(AsyncBackendBase):
             json_resp = _parse_json_response(resp, await conn.readall())
 
         if 'error' in json_resp:
+            error = RequestError(
+                code=resp.status, reason=resp.reason, message=str(json_resp['error'])
+            )
+            if self.is_temp_failure(error):
+                raise error
             raise AuthenticationError(str(json_resp['error']))
 
         bearer = str(json_resp['access_token'])
-- 
2.43.0


From fc9b40ce44891d213a7868d3a12203a88922af67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 41/94] fix: Google Storage: retry on 429 (Too Many Requests)

---
 src/s3ql/backends/gs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index dd6ebdc..18611b9 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -321,7 +321,9 @@ class AsyncBackend(AsyncBackendBase):
             # The pool drops the affected connection automatically.
             return True
 
-        elif isinstance(exc, RequestError) and (500 <= exc.code <= 599 or exc.code == 408):
+        elif isinstance(exc, RequestError) and (
+            500 <= exc.code <= 599 or exc.code in (408, 429)
+        ):
             return True
 
         elif isinstance(exc, AccessTokenExpired):
-- 
2.43.0


From 3a235f03270cdc84554756e8067e0468b674e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:51 +0000
Subject: [PATCH 42/94] fix: Swift: do not regard objects as deleted if the
 server aborted a bulk deletion

---
 src/s3ql/backends/swift.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 1b3da9b..20abfa4 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -731,9 +731,18 @@ class AsyncBackend(AsyncBackendBase):
             key = urllib.parse.unquote(fullkey[offset:])
             failed_keys.append(key)
             log.debug('Delete %s failed with %s', key, error[1])
-        for key in keys[:]:
-            if key not in failed_keys:
-                keys.remove(key)
+        # If the server gave up early, it does not tell which keys it has not processed. In that
+        # case we do not know about any of them.
+        processed = (
+            resp_dict['Number Deleted'] + resp_dict['Number Not Found'] + len(resp_dict['Errors'])
+        )
+        if processed >= len(keys):
+            for key in keys[:]:
+                if key not in failed_keys:
+                    keys.remove(key)
+            if not keys:
+                # Everything was deleted before the error occurred
+                return
 
         # At this point it is clear that the server has sent some kind of error response.
         # Swift is not very consistent in returning errors.
-- 
2.43.0


From b35406f55eb6ea4241e96f52d23252d47b95d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:07 +0000
Subject: [PATCH 43/94] fix: S3: retry bulk deletion if the response is
 incomplete

---
 src/s3ql/backends/s3c4.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/s3c4.py b/src/s3ql/backends/s3c4.py
index 02db7e0..fd33548 100644
--- a/src/s3ql/backends/s3c4.py
+++ b/src/s3ql/backends/s3c4.py
@@ -11,6 +11,7 @@ import hmac
 import logging
 import time
 import urllib.parse
+from contextlib import suppress
 from typing import Literal, overload
 from xml.sax.saxutils import escape as xml_escape
 
@@ -154,7 +155,10 @@ class AsyncBackend(s3c.AsyncBackend):
                     raise get_S3Error(errcode, 'Error deleting %s: %s' % (errkey, errmsg))
 
             except:
-                await conn.discard()
+                # If the connection is broken this fails as well, but that must not hide the
+                # original exception. The pool takes care of the connection.
+                with suppress(Exception):
+                    await conn.discard()
                 raise
 
     def _authorize_request(self, method, path, headers, subres, query_string):
-- 
2.43.0


From 1afb79bb9626b5e11c3ff03372d6f5092fbda93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 44/94] fix: local list() missed objects if the prefix contains
 part of the number

---
 src/s3ql/backends/local.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index 05f0bd9..ec6f1c3 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -231,8 +231,9 @@ class AsyncBackend(AsyncBackendBase):
         for path, dirnames, filenames in os.walk(base, topdown=True):
             # Do not look in wrong directories
             if prefix:
-                rpath = path[len(self.prefix) :]  # path relative to base
-                prefix_l = ''.join(rpath.split('/'))
+                # The names of nested directories contain those of their parents (see
+                # _key_to_path).
+                prefix_l = 's3ql_data_' if path != self.prefix else ''
 
                 dirs_to_walk = list()
                 for name in dirnames:
-- 
2.43.0


From 3d9a0ceda69d0674d66409201cb8d1d408454e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:17 +0000
Subject: [PATCH 45/94] fix: Google Storage: do not duplicate data when a
 download is repeated

---
 src/s3ql/backends/gs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index 18611b9..6c0c5a5 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -448,6 +448,8 @@ class AsyncBackend(AsyncBackendBase):
         try:
             async with self._pool.get() as conn:
                 await self._do_request(conn, 'GET', path, query_string={'alt': 'media'})
+                # Overwrite what an earlier attempt may have received
+                fh.seek(off)
                 await conn.readinto_fh(fh)
         except RequestError as exc:
             mapped_exc = _map_request_error(exc, key)
-- 
2.43.0


From 2c4ee21c0c7b33fdbfb8bf286d01009391e254af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:10 +0000
Subject: [PATCH 46/94] fix: S3: bulk deletion must ignore objects that do not
 exist, and only those

---
 src/s3ql/backends/s3c4.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/s3ql/backends/s3c4.py b/src/s3ql/backends/s3c4.py
index fd33548..7cc61c5 100644
--- a/src/s3ql/backends/s3c4.py
+++ b/src/s3ql/backends/s3c4.py
@@ -122,7 +122,12 @@ class AsyncBackend(s3c.AsyncBackend):
                 root = await self._parse_xml_response(conn, resp)
                 ns_p = self.xml_ns_prefix
 
-                error_tags = root.findall(ns_p + 'Error')
+                # Objects that do not exist do not have to be deleted
+                error_tags = [
+                    tag
+                    for tag in root.findall(ns_p + 'Error')
+                    if tag.findtext(ns_p + 'Code') != 'NoSuchKey'
+                ]
                 if not error_tags:
                     del keys[:]
                     return
@@ -149,10 +154,7 @@ class AsyncBackend(s3c.AsyncBackend):
                 errkey_text = error_tags[0].findtext(ns_p + 'Key')
                 errkey = errkey_text[offset:] if errkey_text else '<unknown>'
 
-                if errcode == 'NoSuchKey':
-                    pass
-                else:
-                    raise get_S3Error(errcode, 'Error deleting %s: %s' % (errkey, errmsg))
+                raise get_S3Error(errcode, 'Error deleting %s: %s' % (errkey, errmsg))
 
             except:
                 # If the connection is broken this fails as well, but that must not hide the
-- 
2.43.0


From 92a56293b8cc54931aa1f84e945875e826429778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 47/94] fix: Swift: try second authentication path even if the
 server closes the connection

---
 src/s3ql/backends/swift.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 20abfa4..dd5409c 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -372,7 +372,8 @@ class AsyncBackend(AsyncBackendBase):
 
                 if resp.status in (404, 412):
                     log.debug('auth to %s failed, trying next path', auth_path)
-                    await conn.discard()
+                    # The server may not want to keep the connection, use a new one
+                    await conn.aclose()
                     continue
 
                 elif resp.status == 401:
-- 
2.43.0


From cc8c18b1f6cdbcf13cc630ed0d9caac31bbd2b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:28 +0000
Subject: [PATCH 48/94] fix: S3: delete_multi() must report which objects were
 deleted if it fails

---
 src/s3ql/backends/s3c4.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/s3ql/backends/s3c4.py b/src/s3ql/backends/s3c4.py
index 7cc61c5..6c77271 100644
--- a/src/s3ql/backends/s3c4.py
+++ b/src/s3ql/backends/s3c4.py
@@ -15,8 +15,6 @@ from contextlib import suppress
 from typing import Literal, overload
 from xml.sax.saxutils import escape as xml_escape
 
-from more_itertools import chunked
-
 from s3ql.http import CaseInsensitiveDict
 
 from . import s3c
@@ -89,15 +87,16 @@ class AsyncBackend(s3c.AsyncBackend):
     async def delete_multi(self, keys: list[str], *, log_progress: bool = False) -> None:
         log.debug('started with %s', keys)
         total = len(keys)
-        failures: list[str] = []
-        processed = 0
-        for batch in chunked(list(keys), MAX_KEYS):
-            await self._delete_multi(batch)
-            failures.extend(batch)
-            processed += len(batch)
+        while keys:
+            batch = keys[:MAX_KEYS]
+            processed = len(batch)
+            try:
+                await self._delete_multi(batch)
+            finally:
+                # Whatever has not been deleted is still in *batch*
+                keys[:processed] = batch
             if log_progress:
-                log_delete_progress(processed - len(failures), total)
-        keys[:] = failures
+                log_delete_progress(total - len(keys), total)
 
     @retry
     async def _delete_multi(self, keys: list[str]) -> None:
-- 
2.43.0


From 38d6751798d8d4778e08fe154fbaf2ae70e2dc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:28 +0000
Subject: [PATCH 49/94] fix: B2: use the proxy to find the region

---
 src/s3ql/backends/b2ng.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/b2ng.py b/src/s3ql/backends/b2ng.py
index 26e8951..2678080 100644
--- a/src/s3ql/backends/b2ng.py
+++ b/src/s3ql/backends/b2ng.py
@@ -117,7 +117,9 @@ class AsyncBackend(s3c4.AsyncBackend):
         auth = 'Basic ' + base64.b64encode(creds.encode('utf-8')).decode('ascii')
         headers = CaseInsensitiveDict({'Authorization': auth})
 
-        async with HTTPConnection('api.backblazeb2.com', 443, ssl_context=self.ssl_context) as conn:
+        async with HTTPConnection(
+            'api.backblazeb2.com', 443, proxy=self.proxy, ssl_context=self.ssl_context
+        ) as conn:
             resp = await conn.send_request('GET', '/b2api/v4/b2_authorize_account', headers=headers)
             body = await conn.readall()
 
-- 
2.43.0


From d2a41fabdd668b835255918c55667f48c6f7c133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:28 +0000
Subject: [PATCH 50/94] fix: S3: do not ignore errors in bulk deletion
 responses without XML namespace

---
 src/s3ql/backends/s3c4.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/s3c4.py b/src/s3ql/backends/s3c4.py
index 6c77271..9206fb0 100644
--- a/src/s3ql/backends/s3c4.py
+++ b/src/s3ql/backends/s3c4.py
@@ -19,7 +19,7 @@ from s3ql.http import CaseInsensitiveDict
 
 from . import s3c
 from .common import log_delete_progress, retry
-from .s3c import get_S3Error, md5sum_b64
+from .s3c import _tag_xmlns_uri, get_S3Error, md5sum_b64
 
 log = logging.getLogger(__name__)
 
@@ -119,7 +119,9 @@ class AsyncBackend(s3c.AsyncBackend):
             )
             try:
                 root = await self._parse_xml_response(conn, resp)
-                ns_p = self.xml_ns_prefix
+                # Not every server uses a namespace in its responses
+                ns_uri = _tag_xmlns_uri(root)
+                ns_p = '' if ns_uri is None else '{%s}' % (ns_uri,)
 
                 # Objects that do not exist do not have to be deleted
                 error_tags = [
-- 
2.43.0


From 00703ee479b57c297ec605b6a626090371f46cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 51/94] fix: Swift: report if there is no access to the
 container

---
 src/s3ql/backends/swift.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index dd5409c..9f945f0 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -274,6 +274,8 @@ class AsyncBackend(AsyncBackendBase):
         except HTTPError as exc:
             if exc.status == 404:
                 raise DanglingStorageURLError(self.container_name)
+            elif exc.status == 403:
+                raise AuthorizationError(exc.msg)
             raise
 
     def is_temp_failure(self, exc):  # IGNORE:W0613
-- 
2.43.0


From 3ec20a1f025a4928d7eac1fb5d36f619421f9a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 52/94] fix: S3: retry temporary errors when looking for the
 region, report missing permissions

---
 src/s3ql/backends/s3.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/backends/s3.py b/src/s3ql/backends/s3.py
index 4adb44d..57e6dfc 100644
--- a/src/s3ql/backends/s3.py
+++ b/src/s3ql/backends/s3.py
@@ -17,6 +17,8 @@ from s3ql.http import CaseInsensitiveDict, HTTPConnection
 
 from ..logging import QuietError
 from . import s3c4
+from .common import retry
+from .s3c import HTTPError
 
 log = logging.getLogger(__name__)
 
@@ -89,11 +91,12 @@ class AsyncBackend(s3c4.AsyncBackend):
 
         return self
 
+    @retry
     async def _discover_region(self) -> None:
         '''Probe the configured endpoint; retarget if redirected, error on wrong region.
 
         Issues a single HEAD request on a one-off `HTTPConnection` to verify
-        that *self.hostname* is the correct S3 endpoint for the bucket. Four
+        that *self.hostname* is the correct S3 endpoint for the bucket. Several
         outcomes are possible:
 
         - 2xx: already at the right endpoint, return immediately.
@@ -102,7 +105,9 @@ class AsyncBackend(s3c4.AsyncBackend):
           is present also *self.region* / *self.sig_region* / *self.signing_key*.
         - 3xx without a `Location` header (AWS path-style wrong-region 301): raise
           `QuietError` telling the user to correct the region in the storage URL.
-        - 4xx/5xx: surface as a typed exception via `_parse_error_response`.
+        - Temporary errors: retried as for any other request.
+        - Other errors (including missing bucket and missing permissions): left to
+          `_probe_access`, because the response to a HEAD request has no details.
         '''
         async with HTTPConnection(
             self.hostname, self.port, proxy=self.proxy, ssl_context=self.ssl_context
@@ -115,10 +120,10 @@ class AsyncBackend(s3c4.AsyncBackend):
             if not (300 <= resp.status <= 399):
                 if 200 <= resp.status <= 299:
                     return
-                # 4xx/5xx: _parse_error_response raises; HEAD has no body so it
-                # raises HTTPError directly without trying to read one.
-                await self._parse_error_response(conn, resp)
-                raise AssertionError('unreachable')
+                exc = HTTPError(resp.status, resp.reason, resp.headers)
+                if self.is_temp_failure(exc):
+                    raise exc
+                return
 
         if not location:
             # AWS path-style wrong-region 301 deliberately omits Location so
-- 
2.43.0


From 733e428fe1c722073d6d1ca8d764d7aac8ec771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 53/94] fix: B2: retry temporary errors when looking for the
 region

---
 src/s3ql/backends/b2ng.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/b2ng.py b/src/s3ql/backends/b2ng.py
index 2678080..316a8f7 100644
--- a/src/s3ql/backends/b2ng.py
+++ b/src/s3ql/backends/b2ng.py
@@ -20,7 +20,7 @@ from s3ql.types import BasicMappingT
 
 from ..logging import QuietError
 from . import s3c4
-from .common import AuthenticationError, AuthorizationError
+from .common import AuthenticationError, AuthorizationError, retry
 from .s3c import HTTPError
 
 log = logging.getLogger(__name__)
@@ -102,6 +102,7 @@ class AsyncBackend(s3c4.AsyncBackend):
         port = 443 if ssl_context else 80
         return (hostname, port, bucket_name, prefix)
 
+    @retry
     async def _discover_region(self) -> None:
         '''Resolve the bucket's region via Backblaze's native authorize endpoint.
 
-- 
2.43.0


From 49ef87cfdb846b69881ccecaf655a352bca66156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:18 +0000
Subject: [PATCH 54/94] fix: S3: bucket names that are a prefix of the host
 name

---
 src/s3ql/backends/s3c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/s3c.py b/src/s3ql/backends/s3c.py
index a9f7d25..e9df0a1 100644
--- a/src/s3ql/backends/s3c.py
+++ b/src/s3ql/backends/s3c.py
@@ -631,7 +631,7 @@ class AsyncBackend(AsyncBackendBase):
             auth_strs.append('%s:%s\n' % (hdr, val))
 
         # Always include bucket name in path for signing
-        if self.hostname.startswith(self.bucket_name):
+        if self.hostname.startswith(self.bucket_name + '.'):
             path = '/%s%s' % (self.bucket_name, path)
         sign_path = urllib.parse.quote(path)
         auth_strs.append(sign_path)
@@ -662,7 +662,7 @@ class AsyncBackend(AsyncBackendBase):
         if not isinstance(headers, CaseInsensitiveDict):
             headers = CaseInsensitiveDict(headers)
 
-        if not self.hostname.startswith(self.bucket_name):
+        if not self.hostname.startswith(self.bucket_name + '.'):
             path = '/%s%s' % (self.bucket_name, path)
         headers['host'] = self.hostname
 
-- 
2.43.0


From 252acea109fb4a06061cd4b7128d38b438544faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 55/94] fix: do not crash on malformed control commands

---
 src/s3ql/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/common.py b/src/s3ql/common.py
index 99f01ef..7711e9c 100644
--- a/src/s3ql/common.py
+++ b/src/s3ql/common.py
@@ -292,7 +292,7 @@ def parse_literal(buf: bytes, type_spec: type[T] | NewType[T]) -> T:
         obj = literal_eval(buf.decode())
     except UnicodeDecodeError:
         raise ValueError('unable to decode as utf-8')
-    except (ValueError, SyntaxError):
+    except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
         raise ValueError('unable to parse as python literal')
 
     if type(obj) is _get_actual_type(type_spec):
@@ -314,7 +314,7 @@ def parse_literal_tuple(
         obj = literal_eval(buf.decode())
     except UnicodeDecodeError:
         raise ValueError('unable to decode as utf-8')
-    except (ValueError, SyntaxError):
+    except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
         raise ValueError('unable to parse as python literal')
 
     actual_types = [_get_actual_type(t) for t in type_spec]
-- 
2.43.0


From 699400bed80d03de06693a42642deeff7957eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:37 +0000
Subject: [PATCH 56/94] fix: control commands for missing or unsuitable inodes
 must not crash or corrupt the file system

---
 src/s3ql/fs.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 94201e0..2ed9d41 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -389,6 +389,20 @@ class Operations(pyfuse3.Operations):
 
         self.inodes[id_].ctime_ns = time_ns()
 
+    def _get_ctrl_inode(self, id_: InodeT) -> _Inode:
+        '''Return inode that was specified in a control command
+
+        These inodes come from setxattr, so they need not exist (anymore).
+        '''
+
+        try:
+            inode = self.inodes[id_]
+        except (KeyError, OverflowError):
+            raise FUSEError(errno.ENOENT)
+        if id_ == CTRL_INODE or inode.refcount == 0:
+            raise FUSEError(errno.ENOENT)
+        return inode
+
     async def lock_tree(self, id0: InodeT) -> None:
         '''Lock directory tree'''
 
@@ -397,7 +411,7 @@ class Operations(pyfuse3.Operations):
 
         log.debug('started with %d', id0)
         queue = [(id0, -1)]
-        self.inodes[id0].locked = True
+        self._get_ctrl_inode(id0).locked = True
         conn = self.db
 
         # Batching updates makes things much faster when using WAL. We don't want to rollback on
@@ -444,9 +458,13 @@ class Operations(pyfuse3.Operations):
 
         log.debug('started with %d, %s', id_p0, name0)
 
-        if self.inodes[id_p0].locked:
+        if self._get_ctrl_inode(id_p0).locked:
             raise FUSEError(errno.EPERM)
 
+        if name0 == CTRL_NAME:
+            log.warning('Attempted to remove s3ql control file (%d/%r)', id_p0, name0)
+            raise FUSEError(errno.EACCES)
+
         conn = self.db
         id0 = self._lookup(id_p0, name0, ctx=None).id
         queue = [id0]  # Directories that we still need to delete
@@ -539,14 +557,16 @@ class Operations(pyfuse3.Operations):
         make_inode = self.inodes.create_inode
         db = self.db
 
+        src_inode = self._get_ctrl_inode(src_id)
+        target_inode = self._get_ctrl_inode(target_id)
+        if not stat.S_ISDIR(src_inode.mode) or not stat.S_ISDIR(target_inode.mode):
+            raise FUSEError(errno.ENOTDIR)
+        if target_inode.locked:
+            raise FUSEError(errno.EPERM)
+        if db.has_val('SELECT 1 FROM contents WHERE parent_inode=?', (target_id,)):
+            raise FUSEError(errno.ENOTEMPTY)
+
         # Copy target attributes
-        # These come from setxattr, so they may have been deleted
-        # without being in open_inodes
-        try:
-            src_inode = self.inodes[src_id]
-            target_inode = self.inodes[target_id]
-        except KeyError:
-            raise FUSEError(errno.ENOENT)
         for attr in ('atime_ns', 'ctime_ns', 'mtime_ns', 'mode', 'uid', 'gid'):
             setattr(target_inode, attr, getattr(src_inode, attr))
 
-- 
2.43.0


From 5c0b515812dd7a826b123489e1bcd211e27b2977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:37 +0000
Subject: [PATCH 57/94] fix: removing the control file must not crash the file
 system

---
 src/s3ql/fs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 2ed9d41..d979c4b 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -699,6 +699,10 @@ class Operations(pyfuse3.Operations):
         if self.failsafe:
             raise FUSEError(errno.EPERM)
 
+        if name == CTRL_NAME:
+            log.warning('Attempted to remove s3ql control file (%d/%r)', id_p, name)
+            raise FUSEError(errno.EACCES)
+
         inode = self._lookup(id_p, name, ctx)
         try:
             if stat.S_ISDIR(inode.mode):
-- 
2.43.0


From 3eb0eb88cfd83fd5671ebc98b7e285ea97f7c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 58/94] fix: s3qlctrl log: 'warn' had the same effect as 'info'

---
 src/s3ql/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index d979c4b..12c37f1 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -1503,7 +1503,7 @@ class Operations(pyfuse3.Operations):
 
 def update_logging(level: int, modules: list[str] | None) -> None:
     root_logger = logging.getLogger()
-    root_logger.setLevel(logging.INFO)
+    root_logger.setLevel(max(level, logging.INFO))
     if level == logging.DEBUG:
         logging.disable(logging.NOTSET)
         if modules is not None and 'all' in modules:
-- 
2.43.0


From 128ca78590edb5814440fdcca21e74fe17170389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 59/94] fix: reject negative cache sizes

---
 src/s3ql/fs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 12c37f1..edf6f70 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -340,6 +340,8 @@ class Operations(pyfuse3.Operations):
                 except ValueError:
                     log.warning('Received malformed command via control inode')
                     raise FUSEError(errno.EINVAL)
+                if cache_size < 0:
+                    raise FUSEError(errno.EINVAL)
                 self.cache.cache.max_size = cache_size
                 log.debug('updated cache size to %d bytes', self.cache.cache.max_size)
 
-- 
2.43.0


From abd0131a1b675f3f4580cedcbda4fdf985251051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:04 +0000
Subject: [PATCH 60/94] fix: do not crash if an entry appears between lookup
 and creation

---
 src/s3ql/fs.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index edf6f70..1b839ed 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -903,6 +903,18 @@ class Operations(pyfuse3.Operations):
             self.db.execute('UPDATE names SET refcount=refcount+1 WHERE id=?', (name_id,))
         return name_id
 
+    def _check_not_exists(self, id_p: InodeT, name: bytes) -> None:
+        '''Raise EEXIST if directory *id_p* already has an entry *name*
+
+        The kernel looks the name up before creating it, but the entry may have been added
+        by `copy_tree` in the meantime.
+        '''
+
+        if self.db.has_val(
+            'SELECT 1 FROM contents_v WHERE parent_inode=? AND name=?', (id_p, name)
+        ):
+            raise FUSEError(errno.EEXIST)
+
     def _del_name(self, name: bytes) -> int:
         '''Decrease refcount for *name*
 
@@ -1005,6 +1017,8 @@ class Operations(pyfuse3.Operations):
         if self.failsafe or inode_p.locked:
             raise FUSEError(errno.EPERM)
 
+        self._check_not_exists(new_id_p, new_name)
+
         inode_p.ctime_ns = now_ns
         inode_p.mtime_ns = now_ns
 
@@ -1289,6 +1303,9 @@ class Operations(pyfuse3.Operations):
         if inode_p.refcount == 0:
             log.warning('Attempted to create entry %s with unlinked parent %d', name, id_p)
             raise FUSEError(errno.EINVAL)
+
+        self._check_not_exists(id_p, name)
+
         inode_p.mtime_ns = now_ns
         inode_p.ctime_ns = now_ns
 
-- 
2.43.0


From 51748eeaba4bce29ec4f7dd8c0ea99fea0341bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 61/94] fix: replication into a directory that is removed,
 locked or populated meanwhile

---
 src/s3ql/fs.py | 69 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 24 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 1b839ed..862551b 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -467,8 +467,30 @@ class Operations(pyfuse3.Operations):
             log.warning('Attempted to remove s3ql control file (%d/%r)', id_p0, name0)
             raise FUSEError(errno.EACCES)
 
-        conn = self.db
         id0 = self._lookup(id_p0, name0, ctx=None).id
+        await self._remove_contents(id0)
+
+        if id_p0 in self.open_inodes:
+            log.debug('invalidate_entry(%d, %r)', id_p0, name0)
+            # This may fail with ENOTEMPTY if the control file has been looked up underneath this
+            # path (same for the invalidate_entry_call_async above). In normal operation this should
+            # be rare, since the control file is not included in readdir() output and only S3QL
+            # tools know about its existence. We could preemtively run invalidate_entry_async() for
+            # the control file whenever we run it for a directory, but that would still leave a
+            # window in which the file could be looked up again and would also impose a performance
+            # penalty for something that is exceedingly rare. Tracked in https://github.com/s3ql/s3ql/issues/319.
+            pyfuse3.invalidate_entry_async(id_p0, name0, deleted=id0, ignore_enoent=True)
+        try:
+            if self._has_entry(id_p0, name0, id0):
+                await self._remove(id_p0, name0, id0, force=True)
+        finally:
+            await self.forget([(id0, 1)])
+        log.debug('finished')
+
+    async def _remove_contents(self, id0: InodeT) -> None:
+        '''Remove everything below directory *id0*'''
+
+        conn = self.db
         queue = [id0]  # Directories that we still need to delete
 
         # Batching updates makes things much faster when using WAL. We don't want to rollback on
@@ -522,23 +544,6 @@ class Operations(pyfuse3.Operations):
                     processed = 0
                     await batch_mgr.start_batch()
 
-        if id_p0 in self.open_inodes:
-            log.debug('invalidate_entry(%d, %r)', id_p0, name0)
-            # This may fail with ENOTEMPTY if the control file has been looked up underneath this
-            # path (same for the invalidate_entry_call_async above). In normal operation this should
-            # be rare, since the control file is not included in readdir() output and only S3QL
-            # tools know about its existence. We could preemtively run invalidate_entry_async() for
-            # the control file whenever we run it for a directory, but that would still leave a
-            # window in which the file could be looked up again and would also impose a performance
-            # penalty for something that is exceedingly rare. Tracked in https://github.com/s3ql/s3ql/issues/319.
-            pyfuse3.invalidate_entry_async(id_p0, name0, deleted=id0, ignore_enoent=True)
-        try:
-            if self._has_entry(id_p0, name0, id0):
-                await self._remove(id_p0, name0, id0, force=True)
-        finally:
-            await self.forget([(id0, 1)])
-        log.debug('finished')
-
     def _has_entry(self, id_p: InodeT, name: bytes, id_: InodeT) -> bool:
         '''Return True if *id_p* has an entry *name* that refers to *id_*'''
 
@@ -547,6 +552,18 @@ class Operations(pyfuse3.Operations):
             (id_p, name, id_),
         )
 
+    def _get_copy_target(self, id_: InodeT) -> _Inode:
+        '''Return target inode of a copy operation if it is suitable'''
+
+        inode = self._get_ctrl_inode(id_)
+        if not stat.S_ISDIR(inode.mode):
+            raise FUSEError(errno.ENOTDIR)
+        if inode.locked:
+            raise FUSEError(errno.EPERM)
+        if self.db.has_val('SELECT 1 FROM contents WHERE parent_inode=?', (id_,)):
+            raise FUSEError(errno.ENOTEMPTY)
+        return inode
+
     async def copy_tree(self, src_id: InodeT, target_id: InodeT) -> None:
         '''Efficiently copy directory tree'''
 
@@ -560,13 +577,9 @@ class Operations(pyfuse3.Operations):
         db = self.db
 
         src_inode = self._get_ctrl_inode(src_id)
-        target_inode = self._get_ctrl_inode(target_id)
-        if not stat.S_ISDIR(src_inode.mode) or not stat.S_ISDIR(target_inode.mode):
+        if not stat.S_ISDIR(src_inode.mode):
             raise FUSEError(errno.ENOTDIR)
-        if target_inode.locked:
-            raise FUSEError(errno.EPERM)
-        if db.has_val('SELECT 1 FROM contents WHERE parent_inode=?', (target_id,)):
-            raise FUSEError(errno.ENOTEMPTY)
+        target_inode = self._get_copy_target(target_id)
 
         # Copy target attributes
         for attr in ('atime_ns', 'ctime_ns', 'mtime_ns', 'mode', 'uid', 'gid'):
@@ -687,6 +700,14 @@ class Operations(pyfuse3.Operations):
                     processed = 0
                     await batch_mgr.start_batch()
 
+        # The target may have been removed, locked or populated while we were busy
+        try:
+            self._get_copy_target(target_inode.id)
+        except FUSEError:
+            await self._remove_contents(tmp.id)
+            del self.inodes[tmp.id]
+            raise
+
         # Make replication visible
         self.db.execute(
             'UPDATE contents SET parent_inode=? WHERE parent_inode=?', (target_inode.id, tmp.id)
-- 
2.43.0


From afa3a902cd474e2306c23baf6920ad235a2d6497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 62/94] fix: s3qlrm: remove the named entry, not something in
 the directory a symlink points to

---
 src/s3ql/remove.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/remove.py b/src/s3ql/remove.py
index 5f53872..5e798aa 100644
--- a/src/s3ql/remove.py
+++ b/src/s3ql/remove.py
@@ -55,14 +55,18 @@ async def remove(
         if os.path.ismount(name):
             raise QuietError('%s is a mount point.' % name)
 
-        parent = os.path.join(name, '..')
+        # Do not use *name*/.., it is something else if *name* is a symlink
+        (parent, basename) = os.path.split(name)
+        if basename in ('', '.', '..'):
+            raise QuietError('Refusing to remove %s.' % (name or '/'))
+        parent = parent or '.'
         ctrlfile = assert_fs_owner(parent)
         fstat_p = os.stat(parent)
 
         # Make sure that write cache is flushed
-        pyfuse3.syncfs(name)
+        pyfuse3.syncfs(parent)
 
-        cmd = ('(%d, %r)' % (fstat_p.st_ino, path2bytes(os.path.basename(name)))).encode()
+        cmd = ('(%d, %r)' % (fstat_p.st_ino, path2bytes(basename))).encode()
         try:
             pyfuse3.setxattr(ctrlfile, 'rmtree', cmd)
         except OSError as exc:
-- 
2.43.0


From 94f0c74e2efffdd98b5d1d3990eca5fbebeba721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:39 +0000
Subject: [PATCH 63/94] fix: s3qlcp: check the real parent of the target
 directory

---
 src/s3ql/cp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/cp.py b/src/s3ql/cp.py
index ddc798d..4bcd6de 100644
--- a/src/s3ql/cp.py
+++ b/src/s3ql/cp.py
@@ -63,7 +63,8 @@ async def cp(
     if os.path.exists(target):
         raise QuietError('Target directory %r must not yet exist.' % target)
 
-    parent = os.path.dirname(os.path.abspath(target))
+    # Do not normalize, that gives a different directory if there are symlinks
+    parent = os.path.dirname(target) or '.'
     if not os.path.exists(parent):
         raise QuietError('Target parent %r does not exist' % parent)
 
-- 
2.43.0


From 872999459550b08428de685e02c758109c4001df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:03 +0000
Subject: [PATCH 64/94] fix: expire_backups: --use-s3qlrm started an event loop
 inside of another one

---
 contrib/expire_backups.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/contrib/expire_backups.py b/contrib/expire_backups.py
index dafcfbf..5b42dc1 100755
--- a/contrib/expire_backups.py
+++ b/contrib/expire_backups.py
@@ -27,7 +27,6 @@ from s3ql.parse_args import (
     LogDest,
     QuietFlag,
     run_app,
-    trio_command,
 )
 from s3ql.remove import main as s3qlrm
 
@@ -45,8 +44,7 @@ app = typer.Typer(
 
 
 @app.command()
-@trio_command
-async def expire_backups(
+def expire_backups(
     cycles: Annotated[
         list[int],
         typer.Argument(metavar='<age>', help='Age range boundaries in terms of backup cycles'),
-- 
2.43.0


From 44b49fd8cbee98050244cc2f14123d38af86450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:03 +0000
Subject: [PATCH 65/94] fix: expire_backups: reconstructed ages were one cycle
 too high

---
 contrib/expire_backups.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/contrib/expire_backups.py b/contrib/expire_backups.py
index 5b42dc1..4b32be6 100755
--- a/contrib/expire_backups.py
+++ b/contrib/expire_backups.py
@@ -14,7 +14,7 @@ import shutil
 import sys
 from collections import defaultdict
 from collections.abc import Sequence
-from datetime import datetime, timedelta
+from datetime import datetime
 from typing import Annotated
 
 import typer
@@ -154,10 +154,8 @@ def upgrade_to_state(backup_list):
 
     state = dict()
     for x in sorted(age):
-        state[x] = 0
-        while age[x] > timedelta(0):
-            state[x] += 1
-            age[x] -= step
+        # The newest backup is 0 cycles old until the next one has been made
+        state[x] = max(0, age[x] // step)
         log.info('Backup %s is %d cycles old', x, state[x])
 
     log.info('State construction complete.')
-- 
2.43.0


From fa5e41ef6ea9ccdc70e0a2066f02c0e1086e39c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:03 +0000
Subject: [PATCH 66/94] fix: expire_backups: only directories whose complete
 name is a date are backups

---
 contrib/expire_backups.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/contrib/expire_backups.py b/contrib/expire_backups.py
index 4b32be6..aeda047 100755
--- a/contrib/expire_backups.py
+++ b/contrib/expire_backups.py
@@ -88,7 +88,11 @@ def expire_backups(
 
     # Determine available backups
     backup_list = set(
-        x for x in os.listdir('.') if re.match(r'^\d{4}-\d\d-\d\d_\d\d:\d\d:\d\d$', x)
+        x
+        for x in os.listdir('.')
+        if re.fullmatch(r'\d{4}-\d\d-\d\d_\d\d:\d\d:\d\d', x, re.ASCII)
+        and os.path.isdir(x)
+        and not os.path.islink(x)
     )
 
     if not os.path.exists(state) and len(backup_list) > 1:
-- 
2.43.0


From 269832c1bcb2e5d693ec682cadb23eb12131544e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 67/94] fix: treat unencrypted objects in an encrypted file
 system as corrupted

---
 src/s3ql/backends/comprenc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index 3ae0640..eca3347 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -225,7 +225,7 @@ class AsyncComprencBackend(AsyncBackend):
             raise CorruptedObjectError('Encrypted object and no passphrase supplied')
 
         elif not encrypted and self.passphrase is not None:
-            raise ObjectNotEncrypted()
+            raise ObjectNotEncrypted('Object %s is not encrypted' % key)
 
         meta_buf = metadata['data']
         if not isinstance(meta_buf, bytes):
@@ -645,7 +645,7 @@ def decompress_buf(decomp: DecompressorProtocol, buf: bytes) -> bytes:
         raise
 
 
-class ObjectNotEncrypted(Exception):
+class ObjectNotEncrypted(CorruptedObjectError):
     '''
     Raised by the backend if an object was requested from an encrypted
     backend, but the object was stored without encryption.
-- 
2.43.0


From 36a739bba930394f79d9c2b854900df346345ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 68/94] fix: report corrupted unencrypted objects as such
 instead of crashing

---
 src/s3ql/backends/comprenc.py | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index eca3347..35946f6 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -297,15 +297,12 @@ class AsyncComprencBackend(AsyncBackend):
         else:
             data_key = None
         compr_token = meta_raw['compression']
-        assert isinstance(compr_token, str)
         encr_alg = meta_raw['encryption']
-        assert isinstance(encr_alg, str)
         if encr_alg != 'AES_v2' and encr_alg != 'None':
-            raise RuntimeError('Unsupported encryption: %r' % encr_alg)
-        try:
-            compr_alg = _ALGORITHM_BY_TOKEN[compr_token]
-        except KeyError:
-            raise RuntimeError('Unsupported compression: %r' % compr_token)
+            raise CorruptedObjectError('Unsupported encryption: %r' % encr_alg)
+        if not isinstance(compr_token, str) or compr_token not in _ALGORITHM_BY_TOKEN:
+            raise CorruptedObjectError('Unsupported compression: %r' % compr_token)
+        compr_alg = _ALGORITHM_BY_TOKEN[compr_token]
 
         # The `payload_offset` key only exists if the storage object was created with on old S3QL
         # version. In order to avoid having to download and re-upload the entire object during the
@@ -313,7 +310,8 @@ class AsyncComprencBackend(AsyncBackend):
         # of the object we have to skip to get to the payload.
         if 'payload_offset' in meta_raw:
             off = meta_raw['payload_offset']
-            assert isinstance(off, int)
+            if not isinstance(off, int) or off < 0:
+                raise CorruptedObjectError('Invalid payload offset: %r' % off)
             buf.seek(off)
         else:
             buf.seek(0)
@@ -321,7 +319,8 @@ class AsyncComprencBackend(AsyncBackend):
         # __size was introduced without bumping the filesystem revision, so some objects
         # may not have it. If it's available, use that instead of the size_hint.
         if v := meta.pop('__size', None):
-            assert isinstance(v, int)
+            if not isinstance(v, int):
+                raise CorruptedObjectError('Invalid object size: %r' % v)
             size_hint = v
 
         # In contrast to write_fh, we potentially use sync decompression/decryption here even
@@ -629,20 +628,10 @@ def decompress_buf(decomp: DecompressorProtocol, buf: bytes) -> bytes:
 
     try:
         return decomp.decompress(buf)
-    except OSError as exc:
-        if exc.args[0].lower().startswith('invalid data stream'):
-            raise CorruptedObjectError('Invalid compressed stream')
-        raise
-    except lzma.LZMAError as exc:
-        if exc.args[0].lower().startswith('corrupt input data') or exc.args[0].startswith(
-            'Input format not supported'
-        ):
-            raise CorruptedObjectError('Invalid compressed stream')
-        raise
-    except zlib.error as exc:
-        if exc.args[0].lower().startswith('error -3 while decompressing'):
-            raise CorruptedObjectError('Invalid compressed stream')
-        raise
+    except (OSError, lzma.LZMAError, zlib.error):
+        raise CorruptedObjectError('Invalid compressed stream')
+    except EOFError:
+        raise CorruptedObjectError('Data after end of compressed stream')
 
 
 class ObjectNotEncrypted(CorruptedObjectError):
-- 
2.43.0


From 194bc10b6127e9c5e0ff1fffedb09ecad742860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:01 +0000
Subject: [PATCH 69/94] fix: report malformed authentication files instead of
 crashing

Syntax errors (including invalid interpolation and encoding) ended the program
with a traceback and exit status 1 instead of the documented status 2.
---
 src/s3ql/authinfo.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/s3ql/authinfo.py b/src/s3ql/authinfo.py
index 01411d3..7dfc018 100644
--- a/src/s3ql/authinfo.py
+++ b/src/s3ql/authinfo.py
@@ -125,16 +125,22 @@ class Authinfo:
             mode = os.stat(authfile).st_mode
             if mode & (stat.S_IRGRP | stat.S_IROTH):
                 raise QuietError('%s has insecure permissions, aborting.' % authfile, exitcode=12)
-            ini_config.read(authfile)
+            try:
+                ini_config.read(authfile)
+            except (configparser.Error, UnicodeDecodeError) as exc:
+                raise QuietError('Invalid authentication file %s: %s' % (authfile, exc), exitcode=2)
 
         merged: dict[str, str] = {}
         for section in ini_config.sections():
-            pattern = ini_config[section].get('storage-url', None)
-            if not pattern or not storage_url.startswith(pattern):
-                continue
-            for key, val in ini_config[section].items():
-                if key != 'storage-url':
-                    merged[key] = val
+            try:
+                pattern = ini_config[section].get('storage-url', None)
+                if not pattern or not storage_url.startswith(pattern):
+                    continue
+                for key, val in ini_config[section].items():
+                    if key != 'storage-url':
+                        merged[key] = val
+            except configparser.InterpolationError as exc:
+                raise QuietError('Invalid authentication file %s: %s' % (authfile, exc), exitcode=2)
 
         log.debug('Read %d authinfo2 setting(s) for %s', len(merged), storage_url)
         try:
-- 
2.43.0


From 78879583752ff47e8f3164e0c04f5194ba93bc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:16 +0000
Subject: [PATCH 70/94] fix: report unusable cache directories instead of
 crashing

A cache directory that cannot be created because its parent does not exist, or
that is not a directory, ended the program with a traceback and exit status 1
instead of the documented status 45.
---
 src/s3ql/parse_args.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/s3ql/parse_args.py b/src/s3ql/parse_args.py
index a9c1585..557c343 100644
--- a/src/s3ql/parse_args.py
+++ b/src/s3ql/parse_args.py
@@ -295,6 +295,13 @@ def init_cachedir(cachedir: str, storage_url: str) -> str:
             os.mkdir(cachedir, stat.S_IRUSR | stat.S_IWUSR | stat.S_IXUSR)
         except PermissionError:
             raise QuietError('No permission to create cache directory ' + cachedir, exitcode=45)
+        except OSError as exc:
+            raise QuietError(
+                'Unable to create cache directory %s: %s' % (cachedir, exc.strerror), exitcode=45
+            )
+
+    if not os.path.isdir(cachedir):
+        raise QuietError('Cache directory %s is not a directory' % cachedir, exitcode=45)
 
     if not os.access(cachedir, os.R_OK | os.W_OK | os.X_OK):
         raise QuietError('No permission to access cache directory ' + cachedir, exitcode=45)
-- 
2.43.0


From 41b024c275254887768135d12b4550d34f5d304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:55 +0000
Subject: [PATCH 71/94] fix: reject connection and thread limits that are out
 of range

A number of connections below one, or a negative number of threads, was
accepted and then ended the program with a traceback (from the capacity
limiters) instead of exit status 2.
---
 src/s3ql/authinfo.py   | 6 +++---
 src/s3ql/parse_args.py | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/authinfo.py b/src/s3ql/authinfo.py
index 7dfc018..d494b97 100644
--- a/src/s3ql/authinfo.py
+++ b/src/s3ql/authinfo.py
@@ -95,8 +95,8 @@ class Authinfo:
     fs_passphrase: str | None = Field(default=None, alias='fs-passphrase')
     backend_options: str = Field(default='', alias='backend-options')
     cachedir: str = DEFAULT_CACHEDIR
-    max_connections: int = Field(default=DEFAULT_MAX_CONNECTIONS, alias='max-connections')
-    max_threads: int | None = Field(default=None, alias='max-threads')
+    max_connections: int = Field(default=DEFAULT_MAX_CONNECTIONS, alias='max-connections', ge=1)
+    max_threads: int | None = Field(default=None, alias='max-threads', ge=0)
     compress: CompressSpec = Field(default_factory=lambda: CompressSpec.parse('lzma-6'))
 
     @field_validator('compress', mode='before')
@@ -175,6 +175,6 @@ def pick(cli: T | None, cfg: T) -> T:
     '''Return the command-line value *cli* unless it is unset, in which case return *cfg*.
 
     The test is `cli is None`, not a truthiness test, so a valid falsy value (for example
-    `--max-connections 0`) is honoured rather than mistaken for an unset option.
+    `--max-threads 0`) is honoured rather than mistaken for an unset option.
     '''
     return cfg if cli is None else cli
diff --git a/src/s3ql/parse_args.py b/src/s3ql/parse_args.py
index 557c343..54d9253 100644
--- a/src/s3ql/parse_args.py
+++ b/src/s3ql/parse_args.py
@@ -256,6 +256,7 @@ MaxConnections = Annotated[
     int | None,
     typer.Option(
         metavar='<no>',
+        min=1,
         show_default=False,
         help='Maximum number of concurrent backend I/O operations (default: %d). This is '
         'independent of --max-threads, which governs compression.' % DEFAULT_MAX_CONNECTIONS,
@@ -265,6 +266,7 @@ MaxThreads = Annotated[
     int | None,
     typer.Option(
         metavar='<no>',
+        min=0,
         show_default=False,
         help='Number of parallel compression/encryption threads to use (default: auto). This '
         'bounds CPU parallelism only and is independent of --max-connections.',
-- 
2.43.0


From ce618a088c898356de9f65fd1093eee6a83d6b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:03 +0000
Subject: [PATCH 72/94] fix: parse fstab-style mount options correctly

-o options whose value contains an equal sign (such as backend-options) and -o
without an argument ended mount.s3ql with a traceback, empty elements made it
take the following options as arguments, and 'ro' resulted in a traceback and
exit status 1 instead of the documented status 35.
---
 src/s3ql/mount.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index abac5eb..6504fa0 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -51,7 +51,7 @@ from .database import (
     write_params,
 )
 from .inode_cache import InodeCache
-from .logging import QuietError, setup_logging
+from .logging import QuietError, setup_excepthook, setup_logging
 from .parse_args import (
     DEFAULT_AUTHFILE,
     AuthFile,
@@ -446,6 +446,8 @@ def main(args: Sequence[str] | None = None) -> None:
     '''Mount S3QL file system'''
 
     install_thread_excepthook()
+    # Errors in fstab options are raised before logging is set up
+    setup_excepthook()
     args = _expand_fstab_options(list(args if args is not None else sys.argv[1:]))
     run_app(app, args, prog_name='mount.s3ql')
 
@@ -645,12 +647,16 @@ def _expand_fstab_options(args: list[str]) -> list[str]:
         max_idx = len(args)
     if '-o' in args[:max_idx]:
         pos = args.index('-o')
+        if pos + 1 >= max_idx:
+            raise QuietError('Option -o requires an argument.', exitcode=2)
         val = args[pos + 1]
         del args[pos]
         del args[pos]
         for opt in reversed(val.split(',')):
+            if not opt:
+                continue
             if '=' in opt:
-                (key, val) = opt.split('=')
+                (key, val) = opt.split('=', 1)
                 args.insert(pos, val)
                 args.insert(pos, '--' + key)
             else:
-- 
2.43.0


From d34c40c49ddf2a08e11c9fe58d012caf28b76c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:32 +0000
Subject: [PATCH 73/94] fix: reject backend options with a missing or malformed
 value

A malformed tcp-timeout, or an option that requires a value given without one,
ended the program with a traceback instead of exit status 3.
---
 src/s3ql/backends/__init__.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/s3ql/backends/__init__.py b/src/s3ql/backends/__init__.py
index 443835b..0323357 100644
--- a/src/s3ql/backends/__init__.py
+++ b/src/s3ql/backends/__init__.py
@@ -38,6 +38,20 @@ async_prefix_map: dict[str, type[AsyncBackend]] = {
 }
 
 
+def _check_option_values(options: dict[str, str | bool]) -> None:
+    '''Raise `QuietError` if an option lacks its value or has an invalid one.'''
+
+    for opt in ('ssl-ca-path', 'sig-region', 'domain', 'project-domain', 'identity-url'):
+        if options.get(opt) is True:
+            raise QuietError('Backend option requires a value: ' + opt, exitcode=3)
+
+    timeout = options.get('tcp-timeout')
+    if timeout is not None and not (
+        isinstance(timeout, str) and re.match(r'^[0-9]+$', timeout) and int(timeout) > 0
+    ):
+        raise QuietError('Backend option tcp-timeout must be a positive integer', exitcode=3)
+
+
 async def open_raw_backend(
     storage_url: str,
     authinfo: Authinfo,
@@ -73,6 +87,7 @@ async def open_raw_backend(
     for opt in parsed_options:
         if opt not in backend_class.known_options:
             raise QuietError('Unknown backend option: ' + opt, exitcode=3)
+    _check_option_values(parsed_options)
 
     backend_login = authinfo.backend_login
     backend_password = authinfo.backend_password
-- 
2.43.0


From ae2acc2d1e9ee95c38d2a991bfec64cee9dbd3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:40 +0000
Subject: [PATCH 74/94] fix: let the rrs option of the s3 backend override ia

as the documentation says.
---
 src/s3ql/backends/s3.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/backends/s3.py b/src/s3ql/backends/s3.py
index 57e6dfc..d17d270 100644
--- a/src/s3ql/backends/s3.py
+++ b/src/s3ql/backends/s3.py
@@ -175,12 +175,13 @@ class AsyncBackend(s3c4.AsyncBackend):
         if 'sse' in self.options:
             headers['x-amz-server-side-encryption'] = 'AES256'
 
-        if 'ia' in self.options:
+        # Documented to take precedence over *ia*
+        if 'rrs' in self.options:
+            sc = 'REDUCED_REDUNDANCY'
+        elif 'ia' in self.options:
             sc = 'STANDARD_IA'
         elif 'oia' in self.options:
             sc = 'ONEZONE_IA'
-        elif 'rrs' in self.options:
-            sc = 'REDUCED_REDUNDANCY'
         elif 'it' in self.options:
             sc = 'INTELLIGENT_TIERING'
         else:
-- 
2.43.0


From c44ad42d46dd0a56d108028ded1049ab4a545cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:28 +0000
Subject: [PATCH 75/94] fix: discard what failed attempts have downloaded
 before retrying

---
 src/s3ql/backends/gs.py    | 6 +++++-
 src/s3ql/backends/s3c.py   | 6 +++++-
 src/s3ql/backends/swift.py | 6 +++++-
 src/s3ql/types.py          | 1 +
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index 6c0c5a5..6348c80 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -437,7 +437,9 @@ class AsyncBackend(AsyncBackendBase):
         return await self._readinto_fh(key, fh, fh.tell())
 
     @retry
-    async def _readinto_fh(self, key: str, fh: BinaryOutput, off: int) -> BasicMappingT:
+    async def _readinto_fh(
+        self, key: str, fh: BinaryOutput, off: int, is_retry: bool = False
+    ) -> BasicMappingT:
         gs_meta = await self._get_gs_meta(key)
         metadata = _unwrap_user_meta(gs_meta)
 
@@ -450,6 +452,8 @@ class AsyncBackend(AsyncBackendBase):
                 await self._do_request(conn, 'GET', path, query_string={'alt': 'media'})
                 # Overwrite what an earlier attempt may have received
                 fh.seek(off)
+                if is_retry:
+                    fh.truncate()
                 await conn.readinto_fh(fh)
         except RequestError as exc:
             mapped_exc = _map_request_error(exc, key)
diff --git a/src/s3ql/backends/s3c.py b/src/s3ql/backends/s3c.py
index e9df0a1..ee3a087 100644
--- a/src/s3ql/backends/s3c.py
+++ b/src/s3ql/backends/s3c.py
@@ -361,7 +361,9 @@ class AsyncBackend(AsyncBackendBase):
         return await self._readinto_fh(key, fh, fh.tell())
 
     @retry
-    async def _readinto_fh(self, key: str, fh: BinaryOutput, off: int) -> BasicMappingT:
+    async def _readinto_fh(
+        self, key: str, fh: BinaryOutput, off: int, is_retry: bool = False
+    ) -> BasicMappingT:
         async with self._pool.get() as conn:
             try:
                 resp = await self._do_request(conn, 'GET', '/%s%s' % (self.prefix, key))
@@ -380,6 +382,8 @@ class AsyncBackend(AsyncBackendBase):
 
             md5 = hashlib.md5()
             fh.seek(off)
+            if is_retry:
+                fh.truncate()
             await conn.readinto_fh(fh, update=md5.update)
 
         if etag != md5.hexdigest():
diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 9f945f0..ddd507f 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -518,7 +518,9 @@ class AsyncBackend(AsyncBackendBase):
         return await self._readinto_fh(key, fh, fh.tell())
 
     @retry
-    async def _readinto_fh(self, key: str, fh: BinaryOutput, off: int):
+    async def _readinto_fh(
+        self, key: str, fh: BinaryOutput, off: int, is_retry: bool = False
+    ):
         if key.endswith(TEMP_SUFFIX):
             raise ValueError('Keys must not end with %s' % TEMP_SUFFIX)
         async with self._borrow_conn() as conn:
@@ -543,6 +545,8 @@ class AsyncBackend(AsyncBackendBase):
 
             md5 = hashlib.md5()
             fh.seek(off)
+            if is_retry:
+                fh.truncate()
             await conn.readinto_fh(fh, update=md5.update)
 
         if etag != md5.hexdigest():
diff --git a/src/s3ql/types.py b/src/s3ql/types.py
index f137908..712dd83 100644
--- a/src/s3ql/types.py
+++ b/src/s3ql/types.py
@@ -56,3 +56,4 @@ class BinaryOutput(Protocol):
     def write(self, data: bytes | bytearray, /) -> int: ...
     def tell(self) -> int: ...
     def seek(self, offset: int, whence: int = 0, /) -> int: ...
+    def truncate(self, size: int | None = None, /) -> int: ...
-- 
2.43.0


From 806b030ed882a20d2e821dde4064a16080d5c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:28 +0000
Subject: [PATCH 76/94] fix: Swift: retry when data was corrupted in transit

---
 src/s3ql/backends/swift.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index ddd507f..c6f4b95 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -279,7 +279,7 @@ class AsyncBackend(AsyncBackendBase):
             raise
 
     def is_temp_failure(self, exc):  # IGNORE:W0613
-        if isinstance(exc, AuthenticationExpired):  # noqa: SIM114
+        if isinstance(exc, (AuthenticationExpired, BadDigestError)):  # noqa: SIM114
             return True
 
         # In doubt, we retry on 5xx (Server error). However, there are some
-- 
2.43.0


From cd6ade562d2752a263aebf7bcc9a081f8880e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:12 +0000
Subject: [PATCH 77/94] fix: give up after 24 hours also when retried
 operations are nested

---
 src/s3ql/backends/common.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/backends/common.py b/src/s3ql/backends/common.py
index 0923d76..68e074f 100644
--- a/src/s3ql/backends/common.py
+++ b/src/s3ql/backends/common.py
@@ -117,12 +117,20 @@ class RateTracker:
 RETRY_TIMEOUT: int = 60 * 60 * 24
 
 
+class RetryTimeoutError(TimeoutError):
+    '''Raised when an operation has been retried for more than `RETRY_TIMEOUT` seconds.
+
+    In contrast to other timeouts, this is not a temporary failure (also when it occurs
+    inside another method that is retried).
+    '''
+
+
 def retry(method: F, _tracker: RateTracker = RateTracker(60)) -> F:  # noqa: B008
     '''Wrap async *method* for retrying on some exceptions
 
     If *method* raises an exception for which the instance's `is_temp_failure(exc)` method is true,
     the *method* is called again at increasing intervals. If this persists for more than
-    `RETRY_TIMEOUT` seconds, the most-recently caught exception is re-raised within a TimeoutError.
+    `RETRY_TIMEOUT` seconds, the most-recently caught exception is re-raised within a RetryTimeoutError.
     If the method defines a keyword parameter *is_retry*, then this parameter will be set to True
     whenever the function is retried.
     '''
@@ -145,7 +153,7 @@ def retry(method: F, _tracker: RateTracker = RateTracker(60)) -> F:  # noqa: B00
             try:
                 return await method(*a, **kw)
             except Exception as exc:
-                if not self.is_temp_failure(exc):
+                if isinstance(exc, RetryTimeoutError) or not self.is_temp_failure(exc):
                     raise
 
                 _tracker.register()
@@ -167,7 +175,7 @@ def retry(method: F, _tracker: RateTracker = RateTracker(60)) -> F:  # noqa: B00
                         getattr(method, '__name__', repr(method)),
                         exc,
                     )
-                    raise TimeoutError() from exc
+                    raise RetryTimeoutError() from exc
 
                 retries += 1
                 if retries <= 2:
-- 
2.43.0


From bfc335fedf3914b0c4bdb3e1e52b2a05a6793268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:57 +0000
Subject: [PATCH 78/94] fix: mkfs.s3ql --plain: remove keys left by an
 interrupted attempt

---
 src/s3ql/mkfs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/s3ql/mkfs.py b/src/s3ql/mkfs.py
index 948db3b..0e98aad 100644
--- a/src/s3ql/mkfs.py
+++ b/src/s3ql/mkfs.py
@@ -212,6 +212,11 @@ async def mkfs(
     else:
         data_pw = None
 
+        # The mere presence of a key marks the file system as encrypted, so do not leave behind what
+        # an earlier attempt that was interrupted may have stored.
+        for suffix in ('', '_bak1', '_bak2', '_bak3'):
+            await plain_backend.delete('s3ql_passphrase' + suffix)
+
     # There can't be a corresponding backend, so we can safely delete
     # these files.
     if os.path.exists(cachepath + '.db'):
-- 
2.43.0


From d75baef0483ff2070dcf9b9d03ceb9a9484e82ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:25 +0000
Subject: [PATCH 79/94] fix: truncate, remove and fsync large sparse files in
 time proportional to their data

---
 src/s3ql/block_cache.py | 30 +++++++++++++++++++++---------
 src/s3ql/fs.py          |  8 +++-----
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 677abc2..55d89c4 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -802,7 +802,22 @@ class BlockCache:
 
         if end_no is None:
             end_no = start_no + 1
-        blocknos = set(range(start_no, end_no))
+        if end_no - start_no <= len(self.cache):
+            blocknos = set(range(start_no, end_no))
+        else:
+            # Sparse files may span far more blocks than there are, so look only at those that exist
+            blocknos = {
+                blockno
+                for (id_, blockno) in self.cache
+                if id_ == inode and start_no <= blockno < end_no
+            }
+            blocknos.update(
+                blockno
+                for (blockno,) in self.db.query(
+                    'SELECT blockno FROM inode_blocks WHERE inode=? AND blockno >= ? AND blockno < ?',
+                    (inode, start_no, end_no),
+                )
+            )
 
         # First do an opportunistic pass and remove everything where we can
         # immediately get a lock. This is important when removing a file right
@@ -845,15 +860,12 @@ class BlockCache:
 
         log.debug('finished')
 
-    def flush_local(self, inode: InodeT, blockno: int) -> None:
-        """Flush buffers for given block"""
-
-        try:
-            el = self.cache[(inode, blockno)]
-        except KeyError:
-            return
+    def flush_local(self, inode: InodeT) -> None:
+        """Flush buffers for all blocks of *inode*"""
 
-        el.flush()
+        for el in self.cache.values():
+            if el.inode == inode:
+                el.flush()
 
     def get_dirty_inodes(self) -> set[InodeT]:
         """Return the inodes that have dirty blocks"""
diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 862551b..0575b1a 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -11,7 +11,6 @@ from __future__ import annotations
 import collections
 import errno
 import logging
-import math
 import os
 import stat
 import struct
@@ -759,7 +758,7 @@ class Operations(pyfuse3.Operations):
         and the inode itself from the database and inode cache.
         '''
         log.debug('purging inode %d', id_)
-        await self.cache.remove(id_, 0, int(math.ceil(size / self.max_obj_size)))
+        await self.cache.remove(id_, 0, -(-size // self.max_obj_size))
         # Since the inode is not open, it's not possible that new blocks
         # get created at this point and we can safely delete the inode
         self.db.execute(
@@ -1101,7 +1100,7 @@ class Operations(pyfuse3.Operations):
             # Determine blocks to delete
             last_block = len_ // self.max_obj_size
             cutoff = len_ % self.max_obj_size
-            total_blocks = int(math.ceil(inode.size / self.max_obj_size))
+            total_blocks = -(-inode.size // self.max_obj_size)
 
             # Delete blocks and truncate last one if required
             try:
@@ -1507,8 +1506,7 @@ class Operations(pyfuse3.Operations):
         if not datasync:
             self.inodes.flush_id(inode_id)
 
-        for blockno in range(0, self.inodes[inode_id].size // self.max_obj_size + 1):
-            self.cache.flush_local(inode_id, blockno)
+        self.cache.flush_local(inode_id)
 
     async def forget(self, forget_list: Sequence[tuple[InodeT, int]]) -> None:
         log.debug('started with %s', forget_list)
-- 
2.43.0


From d398f5a665b77ac5f7995ba58d491f56d694fa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:25 +0000
Subject: [PATCH 80/94] fix: extended statistics of file systems with huge
 sparse files

---
 src/s3ql/fs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 0575b1a..81d35aa 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -1167,7 +1167,11 @@ class Operations(pyfuse3.Operations):
         entries = self.db.get_val("SELECT COUNT(rowid) FROM contents")
         objects = self.db.get_val("SELECT COUNT(id) FROM objects")
         inodes = self.db.get_val("SELECT COUNT(id) FROM inodes")
-        fs_size = self.db.get_val('SELECT SUM(size) FROM inodes') or 0
+        # The sizes of sparse files may add up to more than what fits into a 64-bit integer
+        (high, low) = self.db.get_row(
+            'SELECT TOTAL(size >> 32), TOTAL(size & 4294967295) FROM inodes'
+        )
+        fs_size = min(int(high) * 2**32 + int(low), 2**64 - 1)
         dedup_size = self.db.get_val('SELECT SUM(length) FROM objects') or 0
 
         # Objects that are currently being uploaded/compressed have size == -1
-- 
2.43.0


From bd75ac48c0a66f744583cc7b66ff12ec7137f677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:24 +0000
Subject: [PATCH 81/94] fix: statfs: report the maximum length of file names

Previously, f_namemax was 0, so that pathconf(..., _PC_NAME_MAX) claimed that no file
names were possible.
---
 src/s3ql/fs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 81d35aa..be2a20b 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -1236,6 +1236,8 @@ class Operations(pyfuse3.Operations):
         stat_.f_ffree = total_inodes - inodes
         stat_.f_favail = total_inodes - inodes  # free for non-root
 
+        stat_.f_namemax = MAX_NAME_LEN
+
         return stat_
 
     async def open(self, id_: InodeT, flags: int, ctx: RequestContext) -> pyfuse3.FileInfo:
-- 
2.43.0


From 1321b6d59c3f845176cd01bd27fce5760618df0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:55 +0000
Subject: [PATCH 82/94] fix: do not lose data if a write to a cache file is
 incomplete

Cache files are not buffered, so that FileIO.write() may write only a part of the data
(e.g. when the file system holding the cache is almost full).
---
 src/s3ql/block_cache.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 55d89c4..a79fb1d 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -118,9 +118,14 @@ class CacheEntry:
 
     def write(self, buf: bytes) -> None:
         self.dirty = True
-        self.fh.write(buf)
-        self.pos += len(buf)
-        self.size = max(self.pos, self.size)
+        # The file is not buffered, so write() may process only a part of the data (for example
+        # if there is not enough space left for all of it).
+        view = memoryview(buf)
+        while view:
+            written = self.fh.write(view)
+            self.pos += written
+            self.size = max(self.pos, self.size)
+            view = view[written:]
         self.last_write = time.time()
 
     def close(self) -> None:
-- 
2.43.0


From 70ca65932897f9cd2837b8868307a44cd6716076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:54 +0000
Subject: [PATCH 83/94] fix: do not use cached blocks that are no longer part
 of the file system

If blocks of a file were lost and fsck.s3ql had removed them from the metadata, a cache
that had been kept (--keep-cache) still provided their contents until they were evicted,
and then the data vanished.
---
 src/s3ql/block_cache.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index a79fb1d..a740b83 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -309,6 +309,14 @@ class BlockCache:
             inode = cast(InodeT, int(match.group(1)))
             blockno = int(match.group(2))
 
+            # fsck.s3ql may have removed the block from the metadata
+            if not self.db.has_val(
+                'SELECT 1 FROM inode_blocks WHERE inode=? AND blockno=?', (inode, blockno)
+            ):
+                log.debug('discarding cached block %d of inode %d', blockno, inode)
+                os.unlink(os.path.join(self.path, filename))
+                continue
+
             el = CacheEntry(inode, blockno, os.path.join(self.path, filename), mode='r+b')
             self.cache[(inode, blockno)] = el
             self.cache.size += el.size
-- 
2.43.0


From 28995bbac65ad0fed3ec05d9e9d23a910a6de5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:46 +0000
Subject: [PATCH 84/94] fix: make it possible to resume an interrupted upgrade

If s3qladm upgrade was interrupted after writing the local parameters, but before uploading them,
any further attempt failed, and the file system could neither be mounted nor upgraded nor be used
with an older version. If it was interrupted before invalidating the old metadata, a further attempt
crashed, and an older version could still have been used to modify the file system.

Upload the new parameters before changing the local ones, and when they are already there, just do
what remains to be done.
---
 src/s3ql/adm.py | 55 +++++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/s3ql/adm.py b/src/s3ql/adm.py
index 4e9975e..a89de37 100644
--- a/src/s3ql/adm.py
+++ b/src/s3ql/adm.py
@@ -390,18 +390,18 @@ async def upgrade(
         )
         sys.exit(1)
 
+    # Filesystem may have been updated already. If that was interrupted after the new metadata
+    # became valid (and the file system may have been modified since), all that remains to be done
+    # is to invalidate the old metadata.
+    if await backend.contains('s3ql_params'):
+        await read_remote_params(backend)  # checks revision
+        await invalidate_old_metadata(backend)
+        print('File system already at most-recent revision')
+        return
+
     with open(params_path, 'rb') as fh:
         local_params: BasicMappingT = thaw_basic_mapping(fh.read())
-    try:
-        remote_params = await backend.lookup('s3ql_metadata')
-
-    # Filesystem may have been updated already
-    except NoSuchObject:
-        remote_params_typed = await read_remote_params(backend)
-        remote_params = {
-            'seq_no': remote_params_typed.seq_no,
-            'revision': remote_params_typed.revision,
-        }
+    remote_params = await backend.lookup('s3ql_metadata')
 
     local_seq_no = local_params['seq_no']
     remote_seq_no = remote_params['seq_no']
@@ -486,24 +486,39 @@ async def upgrade(
     params.last_modified = time.time()
     params.seq_no += 1
 
+    # Keep the local parameters until the upgrade can no longer be restarted from the beginning
     await upload_metadata(backend, db, params, incremental=False)
-    write_params(cachepath, params)
     await upload_params(backend, params)
+    write_params(cachepath, params)
 
-    # Re-upload the old metadata object to make sure that we don't accidentally
-    # re-mount the filesystem with an older S3QL version.
     log.info('Backing up old metadata...')
-    local_params['revision'] = CURRENT_FS_REV
-    local_params['seq_no'] = local_seq_no + 1
+    await invalidate_old_metadata(backend)
+
+    print('File system upgrade complete.')
+
+
+async def invalidate_old_metadata(backend: AsyncComprencBackend) -> None:
+    '''Re-upload the old metadata object with the current revision
+
+    This makes sure that we don't accidentally re-mount the filesystem with an older S3QL version.
+    '''
+
+    try:
+        params = await backend.lookup('s3ql_metadata')
+    except NoSuchObject:
+        return
+    revision, seq_no = params['revision'], params['seq_no']
+    assert isinstance(revision, int) and isinstance(seq_no, int)
+    if revision >= CURRENT_FS_REV:
+        return
+
+    params['revision'] = CURRENT_FS_REV
+    params['seq_no'] = seq_no + 1
     with tempfile.TemporaryFile() as tmpfh:
         await backend.readinto_fh('s3ql_metadata', tmpfh)
         len_ = tmpfh.tell()
         tmpfh.seek(0)
-        await backend.write_fh(
-            "s3ql_metadata", tmpfh, len_, metadata=local_params, dont_compress=True
-        )
-
-    print('File system upgrade complete.')
+        await backend.write_fh("s3ql_metadata", tmpfh, len_, metadata=params, dont_compress=True)
 
 
 @app.command(name='restore-metadata')
-- 
2.43.0


From b24f2af4f647098840a30ed9e88cfeff7349ae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:17 +0000
Subject: [PATCH 85/94] fix: pcp.py: copy recursively also without -a

---
 contrib/pcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contrib/pcp.py b/contrib/pcp.py
index f3d5728..6cd1db3 100755
--- a/contrib/pcp.py
+++ b/contrib/pcp.py
@@ -72,7 +72,7 @@ async def pcp(
     # Catch all
     filters.append('- [%s]*' % ''.join(prefixes))
 
-    rsync_args = ['rsync', '-f', '+ */']
+    rsync_args = ['rsync', '-r', '-f', '+ */']
     if not quiet:
         rsync_args.append('--out-format')
         rsync_args.append('%n%L')
-- 
2.43.0


From 89bb5f550f596a6584228fa0b79aede397a8100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:57 +0000
Subject: [PATCH 86/94] fix: include cached inode attributes in periodic
 metadata backups

The inode cache was only flushed when the backup was requested with s3qlctrl. Sizes, modification
times and other attributes of the last 100 inodes that were used could thus be missing from all
periodic backups since they had been modified.
---
 src/s3ql/mount.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index 6504fa0..6ab19b5 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -744,6 +744,10 @@ class MetadataUploadTask:
 
             self.event = trio.Event()  # reset
 
+            # Attributes of recently used inodes are not yet in the database
+            if self.fs is not None:
+                self.fs.inodes.flush()
+
             # Upload twice without blocking writes, to reduce the amount of data left for
             # the final upload (which is needed for a consistent snapshot).
             self.db.sync_checkpoint()
-- 
2.43.0


From f4944da7ab53d85f9ba74c240f456fbf767d39bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:26 +0000
Subject: [PATCH 87/94] fix: umount.s3ql: do not fail if the mount process
 terminates at the wrong moment

---
 src/s3ql/umount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/umount.py b/src/s3ql/umount.py
index e916221..e2ad4b3 100644
--- a/src/s3ql/umount.py
+++ b/src/s3ql/umount.py
@@ -97,7 +97,8 @@ def get_cmdline(pid: int) -> str | None:
             with open('/proc/%d/cmdline' % pid, 'r') as cmd_file:
                 return cmd_file.read()
 
-        except FileNotFoundError:
+        # Reading fails with ESRCH if the process terminates after the file has been opened
+        except (FileNotFoundError, ProcessLookupError):
             return None
 
     else:
-- 
2.43.0


From 53d594782b3dd3ca3b54a53f845a514b93585db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:22 +0000
Subject: [PATCH 88/94] fix: release block locks in cancelled tasks, too

When a file system request fails with an unexpected exception, the other requests
are cancelled. MultiLock.release() did not release the lock in this situation, so
that the flushing of the cache that follows waited for it forever.
---
 src/s3ql/multi_lock.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/multi_lock.py b/src/s3ql/multi_lock.py
index b9a2b83..2cc9ef7 100644
--- a/src/s3ql/multi_lock.py
+++ b/src/s3ql/multi_lock.py
@@ -84,9 +84,11 @@ class MultiLock(Generic[K]):
         not locked.
         """
 
-        async with self.cond:
-            if noerror:
-                self.locked_keys.discard(key)
-            else:
-                self.locked_keys.remove(key)
-            self.cond.notify_all()
+        # Has to work in cancelled tasks as well, otherwise the key would remain locked forever
+        with trio.CancelScope(shield=True):
+            async with self.cond:
+                if noerror:
+                    self.locked_keys.discard(key)
+                else:
+                    self.locked_keys.remove(key)
+                self.cond.notify_all()
-- 
2.43.0


From b0dbb2510bffff59096d4f2645eb3a111a4122a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:46 +0000
Subject: [PATCH 89/94] fix: do not consider blocks stored whose upload was
 cancelled

If a request was cancelled (because another one failed with an unexpected exception)
while it waited for an upload task, the new object stayed in the database as if it had
been uploaded. When the cache was flushed afterwards, the block was taken to be stored
already, and its contents were lost.
---
 src/s3ql/block_cache.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index a740b83..7615704 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -537,11 +537,13 @@ class BlockCache:
         except:
             if set_in_transit:
                 self._unmark_in_transit(el)
-            await self.block_lock.release(el.key, noerror=True)
             if upload_registered:
-                # Not clear what we should do here.. someone might be waiting on this,
-                # but setting it would have the wrong semantics.
-                self.in_flight_uploads.pop(obj_id, None)
+                # The object has not been handed over, so treat this like an upload that has failed
+                # (see _do_upload()). Otherwise the block would be considered stored when its upload
+                # is attempted again.
+                self.db.execute('UPDATE objects SET hash=NULL WHERE id=?', (obj_id,))
+                self.in_flight_uploads.pop(obj_id).set()
+            await self.block_lock.release(el.key, noerror=True)
             raise
 
         if old_obj_id:
-- 
2.43.0


From 685a913d44a6329483317c092d29d4af788099d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:16 +0000
Subject: [PATCH 90/94] fix: local backend: do not store truncated objects if
 the disk is full

The file was not buffered, so write() could process only a part of the data without
reporting an error.
---
 src/s3ql/backends/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index ec6f1c3..7c08972 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -177,14 +177,14 @@ class AsyncBackend(AsyncBackendBase):
             fh.seek(0)
             with ExitStack() as es:
                 try:
-                    dest = es.enter_context(open(tmpname, 'wb', buffering=0))
+                    dest = es.enter_context(open(tmpname, 'wb'))
                 except FileNotFoundError:
                     try:  # noqa: SIM105 # auto-added, needs manual check!
                         os.makedirs(os.path.dirname(path))
                     except FileExistsError:
                         # Another thread may have created the directory already
                         pass
-                    dest = es.enter_context(open(tmpname, 'wb', buffering=0))
+                    dest = es.enter_context(open(tmpname, 'wb'))
 
                 dest.write(b's3ql_1\n')
                 dest.write(struct.pack('<H', len(buf)))
-- 
2.43.0


From eda9e9f5353968461cbe891542923477a237cb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:19 +0000
Subject: [PATCH 91/94] fix: keep inode attributes if the mount is terminated
 by an error

When unmounting because of an error, removing unlinked inodes fails (or gets
cancelled). This prevented the cached attributes of all inodes from being written to
the database, so files were truncated to their size of long before.
---
 src/s3ql/fs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index be2a20b..0e79511 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -156,8 +156,12 @@ class Operations(pyfuse3.Operations):
         self.open_inodes[pyfuse3.ROOT_INODE] += 1
 
     async def destroy(self) -> None:
-        await self.forget(list(self.open_inodes.items()))
-        self.inodes.destroy()
+        try:
+            await self.forget(list(self.open_inodes.items()))
+        finally:
+            # If we are terminating because of an error, removing inodes that have been unlinked
+            # may fail (or get cancelled). This must not discard the attributes of all others.
+            self.inodes.destroy()
 
     async def lookup(self, id_p: InodeT, name: bytes, ctx: RequestContext) -> EntryAttributes:
         return self._lookup(id_p, name, ctx).entry_attributes()
-- 
2.43.0


From 1105dd99601afb5a8f9a9a1917c04fcd8d34907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:26 +0000
Subject: [PATCH 92/94] fix: fsck.s3ql: do not treat holes as data

Reading a hole creates an empty cache file. If the file was truncated at the same time,
fsck.s3ql stored it as a block beyond the end and extended the file again.
---
 src/s3ql/fsck.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index c346942..f3c13f6 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -281,7 +281,12 @@ class Fsck:
                     ),
                 )
             except NoSuchRowError:
-                pass
+                if size == 0:
+                    # Created by reading a hole (possibly beyond the end of the file, if it was
+                    # truncated at the same time). There is nothing to be stored.
+                    if not keep_cache:
+                        os.unlink(os.path.join(self.cachedir, filename))
+                    continue
             else:
                 (obj_id, hash_is, phys_size) = row
                 assert isinstance(obj_id, int)
-- 
2.43.0


From c9da96c2be3c837a9ca852859d54612187cf2121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:37 +0000
Subject: [PATCH 93/94] fix: support lookups of . and .. (exporting over NFS)

Names are bytes, so the comparison with '.' and '..' never succeeded and file handles of NFS
clients became stale as soon as the kernel forgot the inode. Clients may also ask for inodes
that have been removed.
---
 src/s3ql/fs.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 0e79511..3d10060 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -164,8 +164,29 @@ class Operations(pyfuse3.Operations):
             self.inodes.destroy()
 
     async def lookup(self, id_p: InodeT, name: bytes, ctx: RequestContext) -> EntryAttributes:
+        if name in (b'.', b'..'):
+            return self._lookup_dot(id_p, name).entry_attributes()
         return self._lookup(id_p, name, ctx).entry_attributes()
 
+    def _lookup_dot(self, id_: InodeT, name: bytes) -> _Inode:
+        '''Look up *id_* itself, or its parent directory
+
+        The kernel needs this if the file system is exported over NFS. In this case, *id_* comes
+        from a client and may no longer exist.
+        '''
+
+        try:
+            if name == b'..' and id_ != pyfuse3.ROOT_INODE:
+                id_ = self.db.get_inode_val(
+                    "SELECT parent_inode FROM contents WHERE inode=? LIMIT 1", (id_,)
+                )
+            inode = self.inodes[id_]
+        except (KeyError, NoSuchRowError):
+            raise FUSEError(errno.ENOENT)
+
+        self.open_inodes[inode.id] += 1
+        return inode
+
     def _lookup(self, id_p: InodeT, name: bytes, ctx: RequestContext | None) -> _Inode:
         log.debug('started with %d, %r', id_p, name)
 
@@ -177,13 +198,6 @@ class Operations(pyfuse3.Operations):
             object.__setattr__(inode, 'uid', os.getuid())
             object.__setattr__(inode, 'gid', os.getgid())
 
-        elif name == '.':
-            inode = self.inodes[id_p]
-
-        elif name == '..':
-            id_ = self.db.get_inode_val("SELECT parent_inode FROM contents WHERE inode=?", (id_p,))
-            inode = self.inodes[id_]
-
         else:
             try:
                 id_ = self.db.get_inode_val(
-- 
2.43.0


From c4f6dccf1bdfd3966c36ebdfdbe5ffc998a4a34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:35 +0000
Subject: [PATCH 94/94] fix: restore the cache limit after overlapping or
 failed dropcache requests

---
 src/s3ql/block_cache.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 7615704..a335dd5 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -214,6 +214,7 @@ class BlockCache:
     cache: CacheDict
     block_lock: MultiLock[tuple[InodeT, int]]
     in_flight_uploads: dict[int, trio.Event]
+    _drop_lock: trio.Lock
     _in_transit_count: int
     transfer_completed: trio.Condition
     _upload_send: UploadChannelSend
@@ -240,6 +241,7 @@ class BlockCache:
         self.cache = CacheDict(max_size, max_entries)
         self.block_lock = MultiLock()
         self.in_flight_uploads = {}
+        self._drop_lock = trio.Lock()
         self._in_transit_count = 0
         self.transfer_completed = trio.Condition()
         self._upload_send = upload_send
@@ -929,10 +931,14 @@ class BlockCache:
         """Drop cache."""
 
         log.debug('started')
-        bak = self.cache.max_entries
-        self.cache.max_entries = 0
-        await self.evict()
-        self.cache.max_entries = bak
+        # Overlapping calls must not take the temporary limit for the real one
+        async with self._drop_lock:
+            bak = self.cache.max_entries
+            self.cache.max_entries = 0
+            try:
+                await self.evict()
+            finally:
+                self.cache.max_entries = bak
         log.debug('finished')
 
     def get_usage(self) -> tuple[int, int, int, int, int]:
-- 
2.43.0

