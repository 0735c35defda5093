From f9b2fb236d44287d1db0cfa02e931c4386e9177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 01/21] fix: renumbered descriptors must not break opening new
 ones or replace the root descriptor

---
 stable-fs/src/runtime/fd.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/stable-fs/src/runtime/fd.rs b/stable-fs/src/runtime/fd.rs
index 98762ec..c3d02fc 100644
--- a/stable-fs/src/runtime/fd.rs
+++ b/stable-fs/src/runtime/fd.rs
@@ -82,12 +82,19 @@ impl FdTable {
 
     // Open a new file descriptor.
     pub fn open(&mut self, entry: FdEntry) -> Fd {
-        let fd = match self.free_fds.pop() {
-            Some(fd) => fd,
-            None => {
-                let fd = self.next_fd;
-                self.next_fd += 1;
-                fd
+        let fd = loop {
+            let fd = match self.free_fds.pop() {
+                Some(fd) => fd,
+                None => {
+                    let fd = self.next_fd;
+                    self.next_fd += 1;
+                    fd
+                }
+            };
+
+            // skip the numbers already taken by renumbering
+            if !self.table.contains_key(&fd) {
+                break fd;
             }
         };
 
@@ -103,6 +110,11 @@ impl FdTable {
             return Ok(());
         }
 
+        // the root descriptor is always open and cannot be replaced
+        if dst == ROOT_FD {
+            return Err(Error::BadFileDescriptor);
+        }
+
         // cannot do renumbering between a file and a folder
         let src_entry: Option<&FdEntry> = self.table.get(&src);
         let dst_entry: Option<&FdEntry> = self.table.get(&dst);
-- 
2.43.0


From 265b2a11ea237269ca60fa5a02e6a1c1f83f9666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 02/21] fix: seek must not overflow on extreme offsets

---
 stable-fs/src/runtime/file.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/stable-fs/src/runtime/file.rs b/stable-fs/src/runtime/file.rs
index d979d91..5ed0a8d 100644
--- a/stable-fs/src/runtime/file.rs
+++ b/stable-fs/src/runtime/file.rs
@@ -50,21 +50,17 @@ impl File {
                 delta as FileSize
             }
             Whence::CUR => {
-                let back = if delta < 0 {
-                    (-delta).try_into().map_err(|_| Error::InvalidArgument)?
-                } else {
-                    0
-                };
-                let fwd = if delta >= 0 { delta as FileSize } else { 0 };
-
-                if self.cursor < back {
-                    // seeking before zero position
-                    return Err(Error::InvalidArgument);
-                }
-                self.cursor + fwd - back
+                // seeking before zero position or beyond the largest offset is an error
+                self.cursor
+                    .checked_add_signed(delta)
+                    .ok_or(Error::InvalidArgument)?
             }
             Whence::END => {
-                let back: FileSize = (-delta).try_into().map_err(|_| Error::InvalidSeek)?;
+                if delta > 0 {
+                    return Err(Error::InvalidSeek);
+                }
+
+                let back: FileSize = delta.unsigned_abs();
                 if back > size {
                     return Err(Error::InvalidSeek);
                 }
-- 
2.43.0


From d66fc8270fb1cf7b467ddaceac9912823587d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 03/21] fix: shrinking a file must keep the data before the new
 end and not create chunks of another layout

---
 stable-fs/src/storage/stable.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index f9ad4bf..12ab752 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -644,9 +644,13 @@ impl<M: Memory> StableStorage<M> {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        let offset = new_size as FileSize % chunk_size as FileSize;
 
+        if offset > 0
+            && self
+                .filechunk
+                .contains_key(&(node, first_deletable_index - 1))
+        {
             self.write_filechunk_v1(
                 node,
                 first_deletable_index - 1,
@@ -677,8 +681,14 @@ impl<M: Memory> StableStorage<M> {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        let offset = new_size as FileSize % chunk_size as FileSize;
+
+        if offset > 0
+            && self
+                .v2_filechunk
+                .v2_chunk_ptr
+                .contains_key(&(node, first_deletable_index - 1))
+        {
             self.write_chunks_v2(node, new_size, &ZEROES[0..(chunk_size - offset as usize)])?;
         }
 
-- 
2.43.0


From 525482061590e6a71fbffb75bab150eeb428b924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 04/21] fix: keep file sizes, reads and writes within the
 maximum file size

---
 stable-fs/src/storage/chunk_iterator.rs |  4 +++-
 stable-fs/src/storage/ptr_cache.rs      |  4 ++--
 stable-fs/src/storage/stable.rs         | 27 +++++++++++++++----------
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/stable-fs/src/storage/chunk_iterator.rs b/stable-fs/src/storage/chunk_iterator.rs
index fb97569..a3f3d85 100644
--- a/stable-fs/src/storage/chunk_iterator.rs
+++ b/stable-fs/src/storage/chunk_iterator.rs
@@ -2,6 +2,7 @@ use crate::storage::FileSize;
 use crate::storage::Node;
 use crate::storage::types::FileChunkIndex;
 use crate::storage::types::FileChunkPtr;
+use crate::storage::types::MAX_FILE_CHUNK_COUNT;
 use ic_stable_structures;
 use ic_stable_structures::BTreeMap;
 use ic_stable_structures::Memory;
@@ -28,7 +29,8 @@ impl<'a, M: Memory> ChunkV2Iterator<'a, M> {
         v2_chunk_ptr: &'a mut BTreeMap<(Node, FileChunkIndex), FileChunkPtr, VirtualMemory<M>>,
     ) -> Self {
         let cur_index = (offset / chunk_size) as FileChunkIndex;
-        let last_index_excluded = (last_address / chunk_size + 1) as FileChunkIndex;
+        let last_index_excluded =
+            (last_address / chunk_size + 1).min(MAX_FILE_CHUNK_COUNT as FileSize) as FileChunkIndex;
 
         Self {
             node,
diff --git a/stable-fs/src/storage/ptr_cache.rs b/stable-fs/src/storage/ptr_cache.rs
index 87660d8..f768e72 100644
--- a/stable-fs/src/storage/ptr_cache.rs
+++ b/stable-fs/src/storage/ptr_cache.rs
@@ -48,8 +48,8 @@ impl PtrCache {
         to_index: FileChunkIndex,
         v2_chunk_ptr: &BTreeMap<(Node, FileChunkIndex), FileChunkPtr, VirtualMemory<M>>,
     ) {
-        let to_index = to_index.min(from_index + MAX_CACHE_CHUNKS);
-        let to_index = to_index.max(from_index + MIN_CACHE_CHUNKS);
+        let to_index = to_index.min(from_index.saturating_add(MAX_CACHE_CHUNKS));
+        let to_index = to_index.max(from_index.saturating_add(MIN_CACHE_CHUNKS));
         let to_index = to_index.min(MAX_FILE_CHUNK_COUNT);
 
         if from_index >= to_index {
diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 12ab752..36a6700 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -436,8 +436,8 @@ impl<M: Memory> StableStorage<M> {
         buf: &mut [u8],
     ) -> Result<FileSize, Error> {
         let start_index = (offset / FILE_CHUNK_SIZE_V1 as FileSize) as FileChunkIndex;
-        let end_index = ((offset + buf.len() as FileSize) / FILE_CHUNK_SIZE_V1 as FileSize + 1)
-            as FileChunkIndex;
+        let read_end = file_size.min(offset + buf.len() as FileSize);
+        let end_index = (read_end / FILE_CHUNK_SIZE_V1 as FileSize + 1) as FileChunkIndex;
 
         let mut chunk_offset = offset - start_index as FileSize * FILE_CHUNK_SIZE_V1 as FileSize;
 
@@ -590,6 +590,14 @@ impl<M: Memory> StableStorage<M> {
         }
     }
 
+    // the largest size the file can have
+    fn max_file_size(metadata: &Metadata) -> FileSize {
+        metadata
+            .maximum_size_allowed
+            .unwrap_or(MAX_FILE_SIZE)
+            .min(MAX_FILE_SIZE)
+    }
+
     fn validate_metadata_update(
         old_meta: Option<&Metadata>,
         new_meta: &Metadata,
@@ -608,9 +616,7 @@ impl<M: Memory> StableStorage<M> {
             }
         }
 
-        if let Some(max_size) = new_meta.maximum_size_allowed
-            && new_meta.size > max_size
-        {
+        if new_meta.size > Self::max_file_size(new_meta) {
             return Err(Error::FileTooLarge);
         }
 
@@ -879,7 +885,7 @@ impl<M: Memory> Storage for StableStorage<M> {
     fn read(&mut self, node: Node, offset: FileSize, buf: &mut [u8]) -> Result<FileSize, Error> {
         let metadata = self.get_metadata(node)?;
 
-        let max_size = metadata.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
+        let max_size = Self::max_file_size(&metadata);
         let file_size = metadata.size.min(max_size);
 
         if offset >= file_size {
@@ -917,9 +923,11 @@ impl<M: Memory> Storage for StableStorage<M> {
             return Ok(0);
         }
 
-        let max_size = metadata.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
+        let end = offset
+            .checked_add(buf.len() as FileSize)
+            .ok_or(Error::FileTooLarge)?;
 
-        if offset + buf.len() as FileSize > max_size {
+        if end > Self::max_file_size(&metadata) {
             return Err(Error::FileTooLarge);
         }
 
@@ -928,8 +936,6 @@ impl<M: Memory> Storage for StableStorage<M> {
 
             buf.len() as FileSize
         } else {
-            let end = offset + buf.len() as FileSize;
-
             let use_v2 = self.use_v2(&metadata, node);
 
             if use_v2 {
@@ -954,7 +960,6 @@ impl<M: Memory> Storage for StableStorage<M> {
             }
         };
 
-        let end = offset + buf.len() as FileSize;
         if end > metadata.size {
             metadata.size = end;
             self.put_metadata(node, &metadata)?;
-- 
2.43.0


From 2d0f67915a589962a2e7d0fa5e489454cb7a9246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 05/21] fix: the transient storage must drop the data past the
 end when a file shrinks

---
 stable-fs/src/storage/transient.rs | 34 +++++++++++++++++-------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 313dbe0..37688c1 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -156,20 +156,27 @@ impl Storage for TransientStorage {
 
     // Update the metadata associated with the node.
     fn put_metadata(&mut self, node: Node, metadata: &Metadata) -> Result<(), Error> {
-        let meta_storage = if self.is_mounted(node) {
+        let is_mounted = self.is_mounted(node);
+
+        let meta_storage = if is_mounted {
             &mut self.mounted_meta
         } else {
             &mut self.metadata
         };
 
-        if let Some(existing) = meta_storage.get(&node) {
-            Self::validate_metadata_update(Some(existing), metadata)?;
-        } else {
-            Self::validate_metadata_update(None, metadata)?;
-        }
+        let existing = meta_storage.get(&node);
+
+        Self::validate_metadata_update(existing, metadata)?;
+
+        let is_shrinking = existing.is_some_and(|existing| metadata.size < existing.size);
 
         meta_storage.insert(node, metadata.clone());
 
+        // if the size was reduced, we need to delete the file chunks above the file size
+        if is_shrinking && !is_mounted {
+            self.resize_file(node, metadata.size)?;
+        }
+
         Ok(())
     }
 
@@ -284,7 +291,7 @@ impl Storage for TransientStorage {
 
         let first_deletable_index = (new_size.div_ceil(chunk_size as FileSize)) as FileChunkIndex;
 
-        let range = (node, 0)..(node, MAX_FILE_CHUNK_COUNT);
+        let range = (node, first_deletable_index)..(node, MAX_FILE_CHUNK_COUNT);
 
         // delete v1 chunks
         let mut chunks: Vec<(Node, FileChunkIndex)> = Vec::new();
@@ -298,15 +305,12 @@ impl Storage for TransientStorage {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        let offset = (new_size % chunk_size as FileSize) as usize;
 
-            self.write_filechunk(
-                node,
-                first_deletable_index - 1,
-                offset,
-                &ZEROES[0..(chunk_size - offset as usize)],
-            );
+        if offset > 0
+            && let Some(chunk) = self.filechunk.get_mut(&(node, first_deletable_index - 1))
+        {
+            chunk.bytes[offset..].copy_from_slice(&ZEROES[0..(chunk_size - offset)]);
         }
 
         Ok(())
-- 
2.43.0


From 70885d3da79bfcd7afb0aa83ce81cf5ae55e5127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 06/21] fix: the transient storage must validate metadata
 updates and file sizes as the stable storage does

---
 stable-fs/src/storage/transient.rs | 42 +++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 37688c1..44b5289 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -18,7 +18,7 @@ use crate::{
 
 use super::types::{
     DUMMY_DOT_DOT_ENTRY, DUMMY_DOT_DOT_ENTRY_INDEX, DUMMY_DOT_ENTRY, DUMMY_DOT_ENTRY_INDEX,
-    FILE_CHUNK_SIZE_V1, Header, MAX_FILE_CHUNK_COUNT, MAX_FILE_ENTRY_INDEX,
+    FILE_CHUNK_SIZE_V1, Header, MAX_FILE_CHUNK_COUNT, MAX_FILE_ENTRY_INDEX, MAX_FILE_SIZE,
 };
 
 // The root node ID.
@@ -101,20 +101,32 @@ impl TransientStorage {
         }
     }
 
+    // the largest size the file can have
+    fn max_file_size(metadata: &Metadata) -> FileSize {
+        metadata
+            .maximum_size_allowed
+            .unwrap_or(MAX_FILE_SIZE)
+            .min(MAX_FILE_SIZE)
+    }
+
     fn validate_metadata_update(
         old_meta: Option<&Metadata>,
         new_meta: &Metadata,
     ) -> Result<(), Error> {
-        if let Some(max_size) = new_meta.maximum_size_allowed
-            && new_meta.size > max_size
-        {
-            return Err(Error::FileTooLarge);
+        if let Some(old_meta) = old_meta {
+            // do not allow changing file type
+            if old_meta.file_type != new_meta.file_type {
+                return Err(Error::FunctionNotSupported);
+            }
+
+            // changing node is not allowed
+            if old_meta.node != new_meta.node {
+                return Err(Error::IllegalByteSequence);
+            }
         }
 
-        if let Some(old_meta) = old_meta
-            && old_meta.node != new_meta.node
-        {
-            return Err(Error::InvalidArgument);
+        if new_meta.size > Self::max_file_size(new_meta) {
+            return Err(Error::FileTooLarge);
         }
 
         Ok(())
@@ -223,8 +235,8 @@ impl Storage for TransientStorage {
         } else {
             let start_index = (offset / FILE_CHUNK_SIZE_V1 as FileSize) as FileChunkIndex;
 
-            let end_index = ((offset + buf.len() as FileSize) / FILE_CHUNK_SIZE_V1 as FileSize + 1)
-                as FileChunkIndex;
+            let read_end = file_size.min(offset + buf.len() as FileSize);
+            let end_index = (read_end / FILE_CHUNK_SIZE_V1 as FileSize + 1) as FileChunkIndex;
 
             let mut chunk_offset =
                 offset - start_index as FileSize * FILE_CHUNK_SIZE_V1 as FileSize;
@@ -460,11 +472,11 @@ impl Storage for TransientStorage {
             return Ok(0);
         }
 
-        let end = offset + buf.len() as FileSize;
+        let end = offset
+            .checked_add(buf.len() as FileSize)
+            .ok_or(Error::FileTooLarge)?;
 
-        if let Some(max_size) = metadata.maximum_size_allowed
-            && end > max_size
-        {
+        if end > Self::max_file_size(&metadata) {
             return Err(Error::FileTooLarge);
         }
 
-- 
2.43.0


From 83bdcafd113e26598edf673a3f2f26eaf25a90be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 07/21] fix: a directory listing resumed at a dot entry must
 continue with the regular entries

---
 stable-fs/src/storage/stable.rs    | 6 ++++++
 stable-fs/src/storage/transient.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 36a6700..b201193 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -849,6 +849,12 @@ impl<M: Memory> Storage for StableStorage<M> {
 
         let max_index = MAX_FILE_ENTRY_INDEX;
 
+        // the regular entries follow the dummy ones
+        let initial_index = match initial_index {
+            DUMMY_DOT_ENTRY_INDEX | DUMMY_DOT_DOT_ENTRY_INDEX => 0,
+            index => index.min(max_index),
+        };
+
         for en in self
             .direntry
             .range((node, initial_index)..(node, max_index))
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 44b5289..f9c11b1 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -582,6 +582,12 @@ impl Storage for TransientStorage {
 
         let max_index = MAX_FILE_ENTRY_INDEX;
 
+        // the regular entries follow the dummy ones
+        let initial_index = match initial_index {
+            DUMMY_DOT_ENTRY_INDEX | DUMMY_DOT_DOT_ENTRY_INDEX => 0,
+            index => index.min(max_index),
+        };
+
         for ((_node, index), entry) in self
             .direntry
             .range((node, initial_index)..(node, max_index))
-- 
2.43.0


From f9243cc830981f11aac914dc4d4ef0e134425a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 08/21] fix: the cursor of a file truncated on opening starts
 at zero in the append mode

---
 stable-fs/src/fs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index dcd8d5c..1a38a95 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -641,10 +641,11 @@ impl FileSystem {
                     return Err(Error::OperationNotPermitted);
                 }
 
-                let file = File::new(node, stat, self.storage.as_mut())?;
+                let mut file = File::new(node, stat, self.storage.as_mut())?;
 
                 if flags.contains(OpenFlags::TRUNCATE) {
                     file.truncate(self.storage.as_mut())?;
+                    file.cursor = 0;
                 }
 
                 let fd = self.fd_table.open(FdEntry::File(file));
-- 
2.43.0


From d927d63ab61d61379519cc58a572b3a2a25e0215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 09/21] fix: a failed mount must not leave the memory mounted

---
 stable-fs/src/storage/stable.rs    | 9 +++++++--
 stable-fs/src/storage/transient.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index b201193..84d2164 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -1033,9 +1033,14 @@ impl<M: Memory> Storage for StableStorage<M> {
         file_meta.size = new_size;
 
         // update mounted metadata
-        self.put_metadata(node, &file_meta)?;
+        let result = self.put_metadata(node, &file_meta);
 
-        Ok(())
+        if result.is_err() {
+            // do not leave the memory mounted, if the mount has failed
+            self.active_mounts.remove(&node);
+        }
+
+        result
     }
 
     fn unmount_node(&mut self, node: Node) -> Result<Box<dyn Memory>, Error> {
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index f9c11b1..6b925fc 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -374,9 +374,14 @@ impl Storage for TransientStorage {
         file_meta.size = new_size;
 
         // update mounted metadata
-        self.put_metadata(node, &file_meta)?;
+        let result = self.put_metadata(node, &file_meta);
 
-        Ok(())
+        if result.is_err() {
+            // do not leave the memory mounted, if the mount has failed
+            self.active_mounts.remove(&node);
+        }
+
+        result
     }
 
     fn unmount_node(&mut self, node: Node) -> Result<Box<dyn Memory>, Error> {
-- 
2.43.0


From 50c43669cd38997cf87a7d7b223a016268dea0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 10/21] fix: links created or removed while a file is mounted
 must be kept when it is unmounted

---
 stable-fs/src/storage/stable.rs    | 27 +++++++++++++++++++++++++++
 stable-fs/src/storage/transient.rs |  8 ++++++++
 2 files changed, 35 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 84d2164..d06e80a 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -773,6 +773,30 @@ impl<M: Memory> Storage for StableStorage<M> {
             &mut self.v2_filechunk,
         );
 
+        if is_mounted {
+            // the links belong to the host file
+            let host_rec = self.meta_provider.get_metadata(
+                node,
+                false,
+                &self.v2_filechunk.v2_chunk_ptr,
+                &self.v2_filechunk.v2_chunks,
+            );
+
+            if let Some((mut host_meta, host_ptr)) = host_rec
+                && host_meta.link_count != metadata.link_count
+            {
+                host_meta.link_count = metadata.link_count;
+
+                self.meta_provider.put_metadata(
+                    node,
+                    false,
+                    &host_meta,
+                    host_ptr,
+                    &mut self.v2_filechunk,
+                );
+            }
+        }
+
         Ok(())
     }
 
@@ -1014,6 +1038,7 @@ impl<M: Memory> Storage for StableStorage<M> {
         // do extra meta preparation
         // get the file metadata (we are not mounted at this point)
         let mut file_meta = self.get_metadata(node)?;
+        let link_count = file_meta.link_count;
 
         let memory_size = memory.size();
 
@@ -1031,6 +1056,8 @@ impl<M: Memory> Storage for StableStorage<M> {
         let new_size = policy.get_mounted_file_size(old_size, memory_size);
 
         file_meta.size = new_size;
+        // links could have been changed while the file was not mounted
+        file_meta.link_count = link_count;
 
         // update mounted metadata
         let result = self.put_metadata(node, &file_meta);
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 6b925fc..13fa70f 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -184,6 +184,11 @@ impl Storage for TransientStorage {
 
         meta_storage.insert(node, metadata.clone());
 
+        // the links belong to the host file
+        if is_mounted && let Some(host_meta) = self.metadata.get_mut(&node) {
+            host_meta.link_count = metadata.link_count;
+        }
+
         // if the size was reduced, we need to delete the file chunks above the file size
         if is_shrinking && !is_mounted {
             self.resize_file(node, metadata.size)?;
@@ -355,6 +360,7 @@ impl Storage for TransientStorage {
         // do extra meta preparation
         // get the file metadata (we are not mounted at this point)
         let mut file_meta = self.get_metadata(node)?;
+        let link_count = file_meta.link_count;
 
         let memory_size = memory.size();
 
@@ -372,6 +378,8 @@ impl Storage for TransientStorage {
         let new_size = policy.get_mounted_file_size(old_size, memory_size);
 
         file_meta.size = new_size;
+        // links could have been changed while the file was not mounted
+        file_meta.link_count = link_count;
 
         // update mounted metadata
         let result = self.put_metadata(node, &file_meta);
-- 
2.43.0


From 94c31fe320a37be3f0a02febd80d9a40f0c3af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 11/21] fix: a refused store of a mounted memory must not
 unmount it or leave partial data

---
 stable-fs/src/storage/stable.rs    | 9 +++++++++
 stable-fs/src/storage/transient.rs | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index d06e80a..ec97646 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -1128,6 +1128,15 @@ impl<M: Memory> Storage for StableStorage<M> {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
+        // refuse before changing anything, if the host file is not allowed to hold the data
+        let host_meta = self.get_metadata(node)?;
+
+        if file_size > Self::max_file_size(&host_meta) {
+            self.active_mounts.insert(node, memory);
+
+            return Err(Error::FileTooLarge);
+        }
+
         // grow memory if needed
         grow_memory(memory.as_ref(), file_size);
 
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 13fa70f..dc69b3d 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -450,6 +450,15 @@ impl Storage for TransientStorage {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
+        // refuse before changing anything, if the host file is not allowed to hold the data
+        let host_meta = self.get_metadata(node)?;
+
+        if file_size > Self::max_file_size(&host_meta) {
+            self.active_mounts.insert(node, memory);
+
+            return Err(Error::FileTooLarge);
+        }
+
         // grow memory if needed
         grow_memory(memory.as_ref(), file_size);
 
-- 
2.43.0


From ba9219954d47e84bafeece5272dfc0131ecfed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 12/21] fix: a path with a too long name must not leave a part
 of it created

---
 stable-fs/src/runtime/structure_helpers.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 61c0fdd..c1294e4 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -241,6 +241,11 @@ pub fn create_path(
 ) -> Result<(Node, String), Error> {
     let (parts, _must_be_dir) = get_path_parts(path)?;
 
+    // refuse unacceptable names before anything is created
+    for part in &parts {
+        FileName::new(part.as_bytes())?;
+    }
+
     let mut parent_node = parent_node;
     let mut cur_node = parent_node;
 
-- 
2.43.0


From 62cf36d102437934847455f8b233285cc0fb8e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 13/21] fix: a refused hard link of a directory must not delete
 its destination

---
 stable-fs/src/runtime/structure_helpers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index c1294e4..5f310e7 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -122,6 +122,11 @@ pub fn create_hard_link(
     let src_node: Node = find_node(src_dir_node, src_path, names_cache, storage)?;
     let mut metadata = storage.get_metadata(src_node)?;
 
+    // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
+    if !is_renaming && metadata.file_type == FileType::Directory {
+        return Err(Error::OperationNotPermitted);
+    }
+
     match find_node(parent_dir_node, new_path, names_cache, storage) {
         Err(Error::NoSuchFileOrDirectory) => {}
         Ok(dst_node) => {
@@ -161,11 +166,6 @@ pub fn create_hard_link(
     //
     let (dir_node, leaf_name) = create_path(parent_dir_node, new_path, None, ctime, storage)?;
 
-    // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
-    if !is_renaming && metadata.file_type == FileType::Directory {
-        return Err(Error::OperationNotPermitted);
-    }
-
     metadata.link_count += 1;
     storage.put_metadata(src_node, &metadata)?;
 
-- 
2.43.0


From 1f88bb715bb844b77b4a5fd924ba4df9a5158e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 14/21] fix: linking or renaming a file over itself must not
 change link counts or entries

---
 stable-fs/src/fs.rs                        | 18 ++++++++++++++++++
 stable-fs/src/runtime/structure_helpers.rs |  2 ++
 2 files changed, 20 insertions(+)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 1a38a95..b7acef7 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -872,6 +872,24 @@ impl FileSystem {
         let src_dir = self.get_dir(old_fd)?;
         let dst_dir = self.get_dir(new_fd)?;
 
+        let src_node = find_node(
+            src_dir.node,
+            old_path,
+            &mut self.names_cache,
+            self.storage.as_ref(),
+        )?;
+
+        // when both names refer to the same file, there is nothing to rename
+        if find_node(
+            dst_dir.node,
+            new_path,
+            &mut self.names_cache,
+            self.storage.as_ref(),
+        ) == Ok(src_node)
+        {
+            return self.open_internal(src_node, FdStat::default(), OpenFlags::empty());
+        }
+
         // create a new link
         create_hard_link(
             dst_dir.node,
diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 5f310e7..dd3db2e 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -129,6 +129,8 @@ pub fn create_hard_link(
 
     match find_node(parent_dir_node, new_path, names_cache, storage) {
         Err(Error::NoSuchFileOrDirectory) => {}
+        // the new name refers to the same file already, there is nothing to do
+        Ok(dst_node) if dst_node == src_node => return Ok(()),
         Ok(dst_node) => {
             let dst_meta = storage.get_metadata(dst_node)?;
 
-- 
2.43.0


From 0d45f317bcc6bd556d476a62798bc59daf4d7b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 15/21] fix: replacing a file or a directory by a link or a
 rename must release its storage

---
 stable-fs/src/runtime/structure_helpers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index dd3db2e..ff48211 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -150,7 +150,7 @@ pub fn create_hard_link(
             }
 
             // if the operation is allowed so far, try to delete the existing destination entry
-            rm_dir_entry(
+            let (removed_node, removed_metadata) = rm_dir_entry(
                 parent_dir_node,
                 new_path,
                 None,
@@ -159,6 +159,11 @@ pub fn create_hard_link(
                 names_cache,
                 storage,
             )?;
+
+            // release the storage of the replaced file, if this was its last link
+            if removed_metadata.link_count == 0 {
+                storage.rm_file(removed_node)?;
+            }
         }
         Err(err) => return Err(err),
     }
-- 
2.43.0


From f94c2d8605217b420ed07a69faa7d6c4934740e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 16/21] fix: a refused rename of a mounted file must not add a
 link

---
 stable-fs/src/fs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index b7acef7..b88e7cf 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -890,6 +890,11 @@ impl FileSystem {
             return self.open_internal(src_node, FdStat::default(), OpenFlags::empty());
         }
 
+        // mounted files cannot be renamed
+        if self.storage.is_mounted(src_node) {
+            return Err(Error::TextFileBusy);
+        }
+
         // create a new link
         create_hard_link(
             dst_dir.node,
-- 
2.43.0


From 7e2e12447136ea3cbc31d7ec092061782a92c133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:01 +0000
Subject: [PATCH 17/21] fix: a directory must not be moved into itself or into
 its own subdirectory

---
 stable-fs/src/fs.rs                        | 13 ++++-
 stable-fs/src/runtime/structure_helpers.rs | 63 ++++++++++++++++++++++
 2 files changed, 75 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index b88e7cf..f923b8c 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -7,7 +7,9 @@ use crate::{
         dir::Dir,
         fd::{FdEntry, FdTable, STDERR_FD},
         file::File,
-        structure_helpers::{create_hard_link, find_node, rm_dir_entry},
+        structure_helpers::{
+            check_rename_into_itself, create_hard_link, find_node, rm_dir_entry,
+        },
         types::{RIGHTS_FD_READ, RIGHTS_FD_WRITE},
     },
     storage::{
@@ -879,6 +881,15 @@ impl FileSystem {
             self.storage.as_ref(),
         )?;
 
+        // a folder cannot be moved into itself
+        check_rename_into_itself(
+            src_dir.node,
+            old_path,
+            dst_dir.node,
+            new_path,
+            self.storage.as_ref(),
+        )?;
+
         // when both names refer to the same file, there is nothing to rename
         if find_node(
             dst_dir.node,
diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index ff48211..1341ff0 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -187,6 +187,69 @@ pub fn create_hard_link(
     Ok(())
 }
 
+// Check that renaming does not move a folder into itself or into its own subfolder
+pub fn check_rename_into_itself(
+    src_dir_node: Node,
+    src_path: &str,
+    dst_dir_node: Node,
+    dst_path: &str,
+    storage: &dyn Storage,
+) -> Result<(), Error> {
+    let (src_parts, _must_be_dir) = get_path_parts(src_path)?;
+    let (dst_parts, _must_be_dir) = get_path_parts(dst_path)?;
+
+    // the base folder itself has no entry that could be renamed
+    if src_parts.is_empty() {
+        return Err(Error::InvalidArgument);
+    }
+
+    let src_node = find_node_with_index(src_dir_node, src_path, storage)?.node;
+
+    if storage.get_metadata(src_node)?.file_type != FileType::Directory {
+        return Ok(());
+    }
+
+    // the renamed folder is passed on the way to the destination
+    let mut cur_node = dst_dir_node;
+
+    for part in dst_parts {
+        if cur_node == src_node {
+            return Err(Error::InvalidArgument);
+        }
+
+        match find_entry_index(cur_node, part.as_bytes(), storage) {
+            Ok(index) => cur_node = storage.get_direntry(cur_node, index)?.node,
+            Err(_) => break,
+        }
+    }
+
+    // the destination base folder is inside of the renamed folder
+    if dst_dir_node != src_dir_node {
+        let mut folders = vec![src_node];
+
+        while let Some(folder) = folders.pop() {
+            let mut nodes = vec![];
+
+            storage.with_direntries(folder, Some(0), &mut |_index, entry| {
+                nodes.push(entry.node);
+                true
+            });
+
+            for node in nodes {
+                if node == dst_dir_node {
+                    return Err(Error::InvalidArgument);
+                }
+
+                if storage.get_metadata(node)?.file_type == FileType::Directory {
+                    folders.push(node);
+                }
+            }
+        }
+    }
+
+    Ok(())
+}
+
 pub fn create_dir_entry(
     parent_dir_node: Node,
     entry_name: &[u8],
-- 
2.43.0


From 990f2521f329dd08e7abaf5ac28c0cc3cefeacf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 18/21] fix: a reversed memory index range is rejected instead
 of wrapping around

---
 stable-fs/src/storage/stable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index ec97646..9eb52d7 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -154,7 +154,7 @@ impl<M: Memory> StableStorage<M> {
         memory_manager: &MemoryManager<M>,
         memory_indices: Range<u8>,
     ) -> StableStorage<M> {
-        if memory_indices.end - memory_indices.start < MEMORY_INDEX_COUNT {
+        if memory_indices.len() < MEMORY_INDEX_COUNT as usize {
             panic!("The memory index range must include at least {MEMORY_INDEX_COUNT} incides");
         }
 
-- 
2.43.0


From ace560faccf435c1329611fb4ecd0bc292429c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:33 +0000
Subject: [PATCH 19/21] fix: an unsupported file system version is rejected
 before anything is modified

---
 stable-fs/src/storage/stable.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 9eb52d7..d16b87b 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -270,6 +270,13 @@ impl<M: Memory> StableStorage<M> {
             next_node: ROOT_NODE + 1,
         };
 
+        // check the version first, so that unsupported data is rejected before it is modified
+        let header = Cell::init(memories.header_memory, default_header_value);
+
+        if header.get().version != FS_VERSION {
+            panic!("Unsupported file system version");
+        }
+
         let v2_allocator = ChunkPtrAllocator::new(memories.v2_allocator_memory).unwrap();
         let ptr_cache = PtrCache::new();
         let v2_chunk_ptr = BTreeMap::init(memories.v2_chunk_ptr_memory);
@@ -278,7 +285,7 @@ impl<M: Memory> StableStorage<M> {
             MetadataProvider::new(memories.metadata_memory, memories.mounted_meta_memory);
 
         let mut result = Self {
-            header: Cell::init(memories.header_memory, default_header_value),
+            header,
             direntry: BTreeMap::init(memories.direntry_memory),
             filechunk: BTreeMap::init(memories.filechunk_memory),
 
@@ -305,12 +312,6 @@ impl<M: Memory> StableStorage<M> {
         // init mounted drive
         result.init_size_from_cache_journal(&memories.cache_journal);
 
-        let version = result.header.get().version;
-
-        if version != FS_VERSION {
-            panic!("Unsupported file system version");
-        }
-
         result
     }
 
-- 
2.43.0


From 8d4dd58851aad3275c0d3c7a0f447f7ca333bddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 20/21] fix: setting attributes must not change link counts,
 layouts and directory sizes

---
 stable-fs/src/fs.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index f923b8c..ebc5342 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -487,8 +487,20 @@ impl FileSystem {
     }
 
     // Update metadata of a given file descriptor
-    pub fn set_metadata(&mut self, fd: Fd, metadata: Metadata) -> Result<(), Error> {
+    pub fn set_metadata(&mut self, fd: Fd, mut metadata: Metadata) -> Result<(), Error> {
         let node = self.get_node(fd)?;
+        let current = self.storage.get_metadata(node)?;
+
+        // these attributes describe what is stored and only change together with it
+        metadata.link_count = current.link_count;
+        metadata.chunk_type = current.chunk_type;
+
+        if current.file_type == FileType::Directory {
+            // the number of entries
+            metadata.size = current.size;
+            metadata.maximum_size_allowed = current.maximum_size_allowed;
+        }
+
         self.storage.put_metadata(node, &metadata)?;
 
         Ok(())
-- 
2.43.0


From aa8927322c69adb0698440e99dc25ea1dd356f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 21/21] fix: removing a deep folder structure recursively must
 not exhaust the stack

---
 stable-fs/src/fs.rs | 101 ++++++++++++++++++++++++++++++++------------
 1 file changed, 73 insertions(+), 28 deletions(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index ebc5342..8b45569 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -32,6 +32,14 @@ pub struct FileSystem {
     pub storage: Box<dyn Storage>,
 }
 
+// A directory opened by `remove_recursive` together with its children that are not removed yet.
+struct RemovedDir {
+    parent: Fd,
+    name: String,
+    fd: Fd,
+    children: std::vec::IntoIter<(Node, String)>,
+}
+
 impl FileSystem {
     // Create a new file system hosted on a given storage implementation.
     pub fn new(storage: Box<dyn Storage>) -> Result<Self, Error> {
@@ -804,41 +812,78 @@ impl FileSystem {
             return self.remove_file(parent, path);
         }
 
-        // Open the target directory. We use `OpenFlags::DIRECTORY` to ensure
-        //    the path is interpreted as a directory (or fail if it doesn't exist).
-        let dir_fd = self.open(parent, path, FdStat::default(), OpenFlags::DIRECTORY, 0)?;
+        // The directories being removed, from the outermost to the innermost one. The nesting
+        //    is not limited, recursive calls would overflow the stack on a deep folder structure.
+        let mut folders: Vec<RemovedDir> = Vec::new();
 
-        let result = (|| {
-            // Find all directory children
-            let children = self.list_dir_internal(dir_fd, None)?;
-
-            // For each child, figure out if it's a subdirectory or file and remove accordingly.
-            for (child_node, child_name) in children {
-                let child_meta = self.storage.get_metadata(child_node)?;
-
-                match child_meta.file_type {
-                    FileType::Directory => {
-                        // Recurse into the subdirectory.
-                        self.remove_recursive(dir_fd, &child_name)?;
-                    }
-                    FileType::RegularFile => {
+        let mut result = self.push_removed_dir(&mut folders, parent, path);
+
+        while let Some(folder) = folders.last_mut() {
+            let dir_fd = folder.fd;
+
+            // After a failure, stop removing the children
+            let child = if result.is_ok() {
+                folder.children.next()
+            } else {
+                None
+            };
+
+            if let Some((child_node, child_name)) = child {
+                // Figure out if the child is a subdirectory or file and remove accordingly.
+                result = match self.storage.get_metadata(child_node) {
+                    Ok(child_meta) => match child_meta.file_type {
+                        // Descend into the subdirectory.
+                        FileType::Directory => {
+                            self.push_removed_dir(&mut folders, dir_fd, &child_name)
+                        }
                         // Remove the file.
-                        self.remove_file(dir_fd, &child_name)?;
-                    }
-                    FileType::SymbolicLink => {
-                        unimplemented!("Symbolic links are not supported yet");
-                    }
+                        FileType::RegularFile => self.remove_file(dir_fd, &child_name),
+                        FileType::SymbolicLink => {
+                            unimplemented!("Symbolic links are not supported yet");
+                        }
+                    },
+                    Err(err) => Err(err),
+                };
+            } else if let Some(folder) = folders.pop() {
+                // close the folder itself before its deletion, now that it is empty,
+                // remove the directory entry from its parent.
+                let removed = self
+                    .close(folder.fd)
+                    .and_then(|_| self.remove_dir(folder.parent, &folder.name));
+
+                if removed.is_err() {
+                    result = removed;
                 }
             }
+        }
 
-            Ok(())
-        })();
+        result
+    }
 
-        // close the folder itself before its deletion
-        self.close(dir_fd)?;
+    // open a directory that is going to be removed and find all of its children
+    fn push_removed_dir(
+        &mut self,
+        folders: &mut Vec<RemovedDir>,
+        parent: Fd,
+        path: &str,
+    ) -> Result<(), Error> {
+        // Open the target directory. We use `OpenFlags::DIRECTORY` to ensure
+        //    the path is interpreted as a directory (or fail if it doesn't exist).
+        let dir_fd = self.open(parent, path, FdStat::default(), OpenFlags::DIRECTORY, 0)?;
+
+        let children = self.list_dir_internal(dir_fd, None);
+
+        let (result, children) = match children {
+            Ok(children) => (Ok(()), children),
+            Err(err) => (Err(err), Vec::new()),
+        };
 
-        // Now that it is empty, remove the directory entry from its parent.
-        self.remove_dir(parent, path)?;
+        folders.push(RemovedDir {
+            parent,
+            name: path.to_string(),
+            fd: dir_fd,
+            children: children.into_iter(),
+        });
 
         result
     }
-- 
2.43.0

