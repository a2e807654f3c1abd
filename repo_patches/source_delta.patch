From 35cb31b46baaa02955e1d738327d09d7b0409f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 01/23] fix: access the ninth byte of a straddling field
 relative to the field

read_bytes! and write_bytes! handle a field which spans nine bytes by accessing
one more byte than fits in an u64. The reader added the byte offset of the field
twice, the writer not at all, so the wrong byte was used for every such field
which does not start in the first byte.
---
 src/bytereader.rs | 2 +-
 src/bytewriter.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bytereader.rs b/src/bytereader.rs
index b8238e5..cace152 100644
--- a/src/bytereader.rs
+++ b/src/bytereader.rs
@@ -39,7 +39,7 @@ macro_rules! read_bytes {
             result >>= bit_offset;
 
             if num_bytes * 8 - bit_offset < $num_bits {
-                let temp = u64::from(unsafe { *data.add(byte_offset + num_bytes) });
+                let temp = u64::from(unsafe { *data.add(num_bytes) });
                 result |= temp << (num_bytes * 8 - bit_offset) % (num_bytes * 8);
             }
             result = masked!(result, $num_bits);
diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 5c50dfb..f73b2b1 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -63,7 +63,8 @@ macro_rules! write_bytes {
         // one byte might be missing
         let batched_bits_written = num_bytes!($offset, $num_bits) * 8 - bit_offset;
         if batched_bits_written < $num_bits {
-            let destination = &mut $data[num_bytes!($offset, $num_bits)] as *mut u8;
+            let destination =
+                &mut $data[$offset / 8 + num_bytes!($offset, $num_bits)] as *mut u8;
             value_to_store >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);
             value_mask >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);
             unsafe {
-- 
2.43.0


From 51de359beb7c99383b9bf7ce25a9a3bc04de2946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 02/23] fix: write only the specified number of bits of
 unsigned values

The surplus bits of an unsigned value which does not fit in num_bits were or-ed
into the bits following the field.
---
 src/bytewriter.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index f73b2b1..9a23d9f 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -28,10 +28,8 @@ macro_rules! write_bytes {
         let destination = &mut $data[$offset / 8] as *mut u8;
         let bit_offset = $offset % 8;
 
-        let mut value_to_store = $value as u64;
-        if <$T as $crate::helper::Int>::IS_SIGNED {
-            value_to_store = masked!(value_to_store, $num_bits);
-        }
+        let value_to_store = $value as u64;
+        let mut value_to_store = masked!(value_to_store, $num_bits);
         let mut value_mask = masked!(u64::max_value(), $num_bits);
         let mut value: u64 = 0;
 
-- 
2.43.0


From eeb96174db1ab8a2b3a71f0912747a235292180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 03/23] fix: check the index in Vector::at and Vector::at_mut

An index past the end returned a handle to the padding or to memory behind the
buffer.
---
 src/vector.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index 3300250..32bf155 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -141,15 +141,25 @@ where
 
     /// Return an accessor handle to the element at position `index` in the
     /// vector.
+    ///
+    /// # Panics
+    ///
+    /// Panics if index is greater than or equal to `Vector::len()`.
     #[inline]
     pub fn at(&self, index: usize) -> <T as Struct>::Item {
+        assert!(index < self.len());
         T::create(&self.data[index * <T as Struct>::SIZE_IN_BYTES..])
     }
 
     /// Return a mutable handle to the element at position `index` in the
     /// vector.
+    ///
+    /// # Panics
+    ///
+    /// Panics if index is greater than or equal to `Vector::len()`.
     #[inline]
     pub fn at_mut(&mut self, index: usize) -> <T as Struct>::ItemMut {
+        assert!(index < self.len());
         T::create_mut(&mut self.data[index * <T as Struct>::SIZE_IN_BYTES..])
     }
 
-- 
2.43.0


From e12ceb789f5ffafbf8838299698ea69ec6658f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 04/23] fix: panic on huge out of bounds indices of ArrayView
 in release builds

The byte position was calculated before it was checked. With overflow checks
disabled it wrapped around, and the access to a wrong element succeeded.
---
 src/arrayview.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arrayview.rs b/src/arrayview.rs
index 4caa21c..f6c78e7 100644
--- a/src/arrayview.rs
+++ b/src/arrayview.rs
@@ -102,11 +102,11 @@ where
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let data_start = match range.start_bound() {
             Bound::Included(&idx) => self.data_index(idx),
-            Bound::Excluded(&idx) => self.data_index(idx + 1),
+            Bound::Excluded(&idx) => self.data_index(idx.checked_add(1).expect("index overflow")),
             Bound::Unbounded => 0,
         };
         let data_end = match range.end_bound() {
-            Bound::Included(&idx) => self.data_index(idx + 1),
+            Bound::Included(&idx) => self.data_index(idx.checked_add(1).expect("index overflow")),
             Bound::Excluded(&idx) => self.data_index(idx),
             Bound::Unbounded => self.data.len(),
         };
@@ -124,6 +124,7 @@ where
     }
 
     fn data_index(&self, index: usize) -> usize {
+        assert!(index <= self.len());
         index * <T as Struct>::SIZE_IN_BYTES
     }
 }
-- 
2.43.0


From 159fa02af3b5880da9963ca82bcec9bafb9d553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 05/23] fix: panic when slicing MultiArrayView by a range out
 of bounds

A range which starts right after the end, or ends one element before its start,
resulted in a view without sentinel and a length underflow.
---
 src/multiarrayview.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index ddedab0..4dc2129 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -76,15 +76,16 @@ where
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let index_start = match range.start_bound() {
             Bound::Included(&idx) => idx,
-            Bound::Excluded(&idx) => idx + 1,
+            Bound::Excluded(&idx) => idx.checked_add(1).expect("index overflow"),
             Bound::Unbounded => 0,
         };
         // include one more element (sentinel)
         let index_end = match range.end_bound() {
-            Bound::Included(&idx) => idx + 2,
-            Bound::Excluded(&idx) => idx + 1,
+            Bound::Included(&idx) => idx.checked_add(2).expect("index overflow"),
+            Bound::Excluded(&idx) => idx.checked_add(1).expect("index overflow"),
             Bound::Unbounded => self.index.len(),
         };
+        assert!(index_start < index_end);
         Self::new(self.index.slice(index_start..index_end), self.data)
     }
 
-- 
2.43.0


From 69215761e533c9b5f4305193276e44deb795f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 06/23] fix: do not overflow when checking a corrupted resource
 size

---
 src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index bda364f..b9ad6f9 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -108,7 +108,7 @@ pub trait ResourceStorage {
         }
 
         let size = read_bytes!(SizeType, data.as_ptr()) as usize;
-        if size + mem::size_of::<SizeType>() + PADDING_SIZE != data.len() {
+        if size != data.len() - mem::size_of::<SizeType>() - PADDING_SIZE {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
-- 
2.43.0


From c81ce79999dabd06217e86886e5dc0dd752ae63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 07/23] fix: share the data of a memory storage with its
 subdirectories

MemoryResourceStorage::subdir returned an unrelated empty storage, so that
resources of a subarchive were never found when the archive was opened.
---
 src/memstorage.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index a48dc26..8c18370 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -33,7 +33,8 @@ impl fmt::Debug for MemoryStorage {
 /// Resource storage in memory.
 #[derive(Debug)]
 pub struct MemoryResourceStorage {
-    storage: MemoryStorage,
+    // Shared with the storages of subdirectories
+    storage: Rc<MemoryStorage>,
     path: PathBuf,
 }
 
@@ -45,7 +46,7 @@ impl MemoryResourceStorage {
     #[allow(clippy::new_ret_no_self)]
     pub fn new<P: Into<PathBuf>>(path: P) -> Rc<Self> {
         Rc::new(Self {
-            storage: MemoryStorage::default(),
+            storage: Rc::default(),
             path: path.into(),
         })
     }
@@ -55,7 +56,10 @@ impl Stream for Cursor<Vec<u8>> {}
 
 impl ResourceStorage for MemoryResourceStorage {
     fn subdir(&self, dir: &str) -> Rc<ResourceStorage> {
-        Self::new(self.path.join(dir))
+        Rc::new(Self {
+            storage: self.storage.clone(),
+            path: self.path.join(dir),
+        })
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-- 
2.43.0


From b79cad5cd6e172c94f8db0f59f1883e51a92d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 08/23] fix: start with an empty stream when a memory resource
 is written again

The data was appended to the data written before, and the resource could not be
read anymore.
---
 src/memstorage.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index 8c18370..4caa3d6 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -100,13 +100,11 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
         let resource_path = self.path.join(resource_name);
-        let stream = self
-            .storage
+        let stream: MemoryStorageStream = Rc::default();
+        self.storage
             .streams
             .borrow_mut()
-            .entry(resource_path)
-            .or_insert_with(|| Rc::new(RefCell::new(Cursor::new(Vec::new()))))
-            .clone();
+            .insert(resource_path, stream.clone());
         Ok(stream)
     }
 }
-- 
2.43.0


From e2a1cd54615bc3dfbebfc88851dd32b7516c9734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 09/23] fix: do not read outdated data from memory storage

A resource which was read while it was being written, or before it was written
again, could never be read correctly afterwards. In particular, closing a vector
failed after an attempt to open the unfinished archive.
---
 src/memstorage.rs | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index 4caa3d6..82aa4d8 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -15,8 +15,9 @@ type MemoryStorageStream = Rc<RefCell<Cursor<Vec<u8>>>>;
 struct MemoryStorage {
     // Streams of resources that were written.
     streams: RefCell<BTreeMap<PathBuf, MemoryStorageStream>>,
-    // Data of resources that were opened for reading.
-    resources: RefCell<BTreeMap<PathBuf, Rc<Vec<u8>>>>,
+    // Data of resources that were opened for reading. There is one entry for each different
+    // content of the stream which was seen so far, the last one is the current.
+    resources: RefCell<BTreeMap<PathBuf, Vec<Rc<Vec<u8>>>>>,
 }
 
 impl fmt::Debug for MemoryStorage {
@@ -70,28 +71,22 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !self.storage.resources.borrow().contains_key(&resource_path) {
-            let streams = self.storage.streams.borrow();
-            let stream = streams.get(&resource_path);
-            match stream {
-                Some(stream) => {
-                    // Resource is not yet opened, but there is a stream it was written to
-                    // => copy the stream as resource data.
-                    let data = Rc::new(stream.borrow().get_ref().clone());
-                    self.storage
-                        .resources
-                        .borrow_mut()
-                        .insert(resource_path.clone(), data);
-                }
-                None => {
-                    return Err(io::Error::new(
-                        io::ErrorKind::NotFound,
-                        String::from(resource_path.to_str().unwrap_or(resource_name)),
-                    ));
-                }
-            }
+        let streams = self.storage.streams.borrow();
+        let stream = streams.get(&resource_path).ok_or_else(|| {
+            io::Error::new(
+                io::ErrorKind::NotFound,
+                String::from(resource_path.to_str().unwrap_or(resource_name)),
+            )
+        })?;
+        let stream = stream.borrow();
+        let mut resources = self.storage.resources.borrow_mut();
+        let versions = resources.entry(resource_path).or_default();
+        // Resource is not yet opened, or it was written to since then
+        // => copy the stream as resource data.
+        if versions.last().map_or(true, |data| **data != *stream.get_ref()) {
+            versions.push(Rc::new(stream.get_ref().clone()));
         }
-        let data = &self.storage.resources.borrow()[&resource_path];
+        let data = &versions[versions.len() - 1];
         // We cannot prove to Rust that the buffer will live as long as the storage
         // (we never delete mappings), so we need to manually extend lifetime
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
-- 
2.43.0


From dfd7ebe37a5d907fb8f7a15445eb9612aab50c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 10/23] fix: do not read outdated data from file storage

A resource which was read while it was being written, or before it was written
again, could never be read correctly afterwards. In particular, closing a vector
failed after an attempt to open the unfinished archive. Moreover, writing a
resource again truncated the file below the data already handed out.
---
 src/filestorage.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 971cc93..1de3cf7 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -14,13 +14,18 @@ use std::slice;
 #[derive(Debug, Default)]
 struct MemoryMappedFileStorage {
     maps: RefCell<BTreeMap<String, Mmap>>,
+    // Outdated mappings, which have to live as long as the storage too.
+    outdated_maps: RefCell<Vec<Mmap>>,
 }
 
 impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
-        if !self.maps.borrow().contains_key(path) {
-            let file = File::open(path)?;
+        let file = File::open(path)?;
+        let file_len = file.metadata()?.len();
+        let is_outdated = |map: &Mmap| map.len() as u64 != file_len;
+        if self.maps.borrow().get(path).map_or(true, is_outdated) {
             let file_mmap = unsafe { Mmap::map(&file)? };
+            self.forget(path);
             self.maps.borrow_mut().insert(path.into(), file_mmap);
         }
         let data = &self.maps.borrow()[path];
@@ -29,6 +34,12 @@ impl MemoryMappedFileStorage {
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
         Ok(&extended_lifetime_data)
     }
+
+    /// Makes sure that a file is mapped anew when it is read the next time.
+    pub fn forget(&self, path: &str) {
+        let map = self.maps.borrow_mut().remove(path);
+        self.outdated_maps.borrow_mut().extend(map);
+    }
 }
 
 impl Stream for File {}
@@ -83,6 +94,15 @@ impl ResourceStorage for FileResourceStorage {
             fs::create_dir_all(self.path.clone())?;
         }
         let resource_path = self.path.join(resource_name);
+        if let Some(path) = resource_path.to_str() {
+            self.storage.forget(path);
+        }
+        // Replace an existing file instead of truncating it, since it may be still mapped.
+        if let Err(e) = fs::remove_file(&resource_path) {
+            if e.kind() != io::ErrorKind::NotFound {
+                return Err(e);
+            }
+        }
         let file = File::create(resource_path)?;
         Ok(Rc::new(RefCell::new(file)))
     }
-- 
2.43.0


From 3dc101073fdd4a17cf9b7283ab3e6e8e12f1c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 11/23] fix: read empty files from file storage

An empty file cannot be mapped, therefore a resource with an empty schema could
be written, but not read.
---
 src/filestorage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 1de3cf7..da2c2d2 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -22,6 +22,10 @@ impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
         let file = File::open(path)?;
         let file_len = file.metadata()?.len();
+        if file_len == 0 {
+            // Empty files cannot be mapped
+            return Ok(&[]);
+        }
         let is_outdated = |map: &Mmap| map.len() as u64 != file_len;
         if self.maps.borrow().get(path).map_or(true, is_outdated) {
             let file_mmap = unsafe { Mmap::map(&file)? };
-- 
2.43.0


From 7465f4387a82167ba7a3ba912d7c66c656a0ff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 12/23] fix: create the directories of slash-separated keys in
 file storage

---
 src/filestorage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index da2c2d2..c007cad 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -94,10 +94,10 @@ impl ResourceStorage for FileResourceStorage {
     }
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
-        if !self.path.exists() {
-            fs::create_dir_all(self.path.clone())?;
-        }
         let resource_path = self.path.join(resource_name);
+        if let Some(dir) = resource_path.parent() {
+            fs::create_dir_all(dir)?;
+        }
         if let Some(path) = resource_path.to_str() {
             self.storage.forget(path);
         }
-- 
2.43.0


From 5b688c928052fdaf8f8c082c04f840dab17a9892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 13/23] fix: do not reserve a size which is valid for an
 unfinished resource

A resource with 8 bytes of data written, but not closed, looked like an empty
resource and could be opened.
---
 src/storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index b9ad6f9..708e37f 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -283,10 +283,11 @@ impl<'a> ResourceHandle<'a> {
         stream: Rc<RefCell<Stream>>,
     ) -> io::Result<Self> {
         // Reserve space for size in the beginning of the stream, which will be updated
-        // later.
+        // later. Until then, the size does not match any data, so that the unfinished
+        // resource cannot be read.
         {
             let mut mut_stream = stream.borrow_mut();
-            write_size(0u64, mut_stream.deref_mut())?;
+            write_size(SizeType::max_value(), mut_stream.deref_mut())?;
         }
         Ok(Self {
             stream: Some(stream),
-- 
2.43.0


From 67e68b738f47587a80517dcee174cace4a5d6dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 14/23] fix: implement size_hint of exact size iterators

ExactSizeIterator requires an exact size_hint. Without it, adapters which rely on
it, e.g. `view.iter().skip(1).rev()`, panic.
---
 src/arrayview.rs      | 4 ++++
 src/multiarrayview.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/arrayview.rs b/src/arrayview.rs
index f6c78e7..6eb14c6 100644
--- a/src/arrayview.rs
+++ b/src/arrayview.rs
@@ -227,6 +227,10 @@ where
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.view.len(), Some(self.view.len()))
+    }
 }
 
 impl<'a, T> iter::ExactSizeIterator for ArrayViewIter<'a, T>
diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index 4dc2129..49e2a7a 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -241,6 +241,10 @@ where
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.view.len(), Some(self.view.len()))
+    }
 }
 
 impl<'a, Idx, Ts: 'a> iter::DoubleEndedIterator for MultiArrayViewIter<'a, Idx, Ts>
-- 
2.43.0


From 1d90ca8c236ada156c469a03ee0f638ce0badf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 15/23] fix: return I/O errors from closing and creating
 vectors instead of panicking

If an error occurred while a vector or multivector was being closed, or the
second resource of a multivector could not be created, then a still open resource
handle was dropped, and the error was lost in the panic about the leaked resource.
---
 src/multivector.rs | 16 +++++++++++---
 src/storage.rs     | 52 +++++++++++++++++++++++++++-------------------
 src/vector.rs      | 13 +++++++++---
 3 files changed, 54 insertions(+), 27 deletions(-)

diff --git a/src/multivector.rs b/src/multivector.rs
index e0f576e..ec3690a 100644
--- a/src/multivector.rs
+++ b/src/multivector.rs
@@ -199,9 +199,19 @@ where
     pub fn close(mut self) -> Result<MultiArrayView<'a, Idx, Ts>, ResourceStorageError> {
         let name: String = self.data_handle.name().into();
         let into_storage_error = |e| ResourceStorageError::from_io_error(e, name.clone());
-        self.add_to_index().map_err(into_storage_error)?; // sentinel for last item
-        self.flush().map_err(into_storage_error)?;
-        let index_view = self.index.close()?;
+        // sentinel for last item
+        if let Err(e) = self.add_to_index().and_then(|_| self.flush()) {
+            self.index.abort();
+            self.data_handle.abort();
+            return Err(into_storage_error(e));
+        }
+        let index_view = match self.index.close() {
+            Ok(index_view) => index_view,
+            Err(e) => {
+                self.data_handle.abort();
+                return Err(e);
+            }
+        };
         let data = self.data_handle.close()?;
         Ok(MultiArrayView::new(index_view, data))
     }
diff --git a/src/storage.rs b/src/storage.rs
index 708e37f..af8f878 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -130,6 +130,20 @@ pub trait ResourceStorage {
 // Resource factory helpers
 //
 
+/// Writes the schema of a resource and returns a handle for writing its data.
+fn create_resource_handle<'a>(
+    storage: &'a ResourceStorage,
+    resource_name: &str,
+    schema: &str,
+) -> io::Result<ResourceHandle<'a>> {
+    let schema_name = format!("{}.schema", resource_name);
+    let stream = storage.create_output_stream(&schema_name)?;
+    stream.borrow_mut().write_all(schema.as_bytes())?;
+
+    let data_writer = storage.create_output_stream(resource_name)?;
+    ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)
+}
+
 /// Helper for creating an external vector in the given resource storage.
 ///
 /// Creates a new resource with given name and schema in storage, and returns
@@ -143,15 +157,7 @@ pub fn create_external_vector<'a, T>(
 where
     T: for<'b> Struct<'b>,
 {
-    // write schema
-    let schema_name = format!("{}.schema", resource_name);
-    let stream = storage.create_output_stream(&schema_name)?;
-    stream.borrow_mut().write_all(schema.as_bytes())?;
-
-    // create external vector
-    let data_writer = storage.create_output_stream(resource_name)?;
-    let handle =
-        ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)?;
+    let handle = create_resource_handle(storage, resource_name, schema)?;
     Ok(ExternalVector::new(handle))
 }
 
@@ -174,16 +180,13 @@ where
     let index_schema = format!("index({})", schema);
     let index = create_external_vector(storage, &index_name, &index_schema)?;
 
-    // write schema
-    let schema_name = format!("{}.schema", resource_name);
-    let stream = storage.create_output_stream(&schema_name)?;
-    stream.borrow_mut().write_all(schema.as_bytes())?;
-
-    // create multi vector
-    let data_writer = storage.create_output_stream(resource_name)?;
-    let handle =
-        ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)?;
-    Ok(MultiVector::new(index, handle))
+    match create_resource_handle(storage, resource_name, schema) {
+        Ok(handle) => Ok(MultiVector::new(index, handle)),
+        Err(e) => {
+            index.abort();
+            Err(e)
+        }
+    }
 }
 
 /// Creates a new archive in resource storage.
@@ -324,7 +327,8 @@ impl<'a> ResourceHandle<'a> {
             let resource_name = self.name.clone();
             let into_storage_error =
                 |e| ResourceStorageError::from_io_error(e, resource_name.clone());
-            let stream = self.stream.as_ref().ok_or_else(|| {
+            // The stream is closed, even if an error occurs below
+            let stream = self.stream.take().ok_or_else(|| {
                 into_storage_error(io::Error::new(
                     io::ErrorKind::UnexpectedEof,
                     "stream closed",
@@ -341,11 +345,17 @@ impl<'a> ResourceHandle<'a> {
             write_size(self.size_in_bytes as u64, mut_stream.deref_mut())
                 .map_err(into_storage_error)?;
         }
-        self.stream = None;
         // return underlying memory descriptor to the written data
         self.storage.read(&self.name, &self.schema)
     }
 
+    /// Close the underlying stream without finalizing the resource.
+    ///
+    /// Used when an error occurred. The resource cannot be read.
+    pub fn abort(&mut self) {
+        self.stream = None;
+    }
+
     pub fn name(&self) -> &str {
         &self.name
     }
diff --git a/src/vector.rs b/src/vector.rs
index 32bf155..8c65474 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -344,13 +344,20 @@ where
     ///
     /// An external vector *must* be closed, otherwise it will panic on drop
     pub fn close(mut self) -> Result<ArrayView<'a, T>, ResourceStorageError> {
-        self.flush().map_err(|e| {
-            ResourceStorageError::from_io_error(e, self.resource_handle.name().into())
-        })?;
+        if let Err(e) = self.flush() {
+            let name = self.resource_handle.name().into();
+            self.abort();
+            return Err(ResourceStorageError::from_io_error(e, name));
+        }
         self.resource_handle
             .close()
             .map(|data| ArrayView::new(data))
     }
+
+    /// Closes this vector without finalizing the data inside the storage.
+    pub(crate) fn abort(mut self) {
+        self.resource_handle.abort();
+    }
 }
 
 impl<T> fmt::Debug for ExternalVector<'_, T>
-- 
2.43.0


From c42a6334813c142c86e2a90ee65979be6df27370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 16/23] fix: share the mappings of a file storage with its
 subdirectories

---
 src/filestorage.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index c007cad..1016760 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -51,7 +51,8 @@ impl Stream for File {}
 /// Resource storage on disk using memory mapped files.
 #[derive(Debug)]
 pub struct FileResourceStorage {
-    storage: MemoryMappedFileStorage,
+    // Shared with the storages of subdirectories
+    storage: Rc<MemoryMappedFileStorage>,
     path: PathBuf,
 }
 
@@ -60,7 +61,7 @@ impl FileResourceStorage {
     #[allow(clippy::new_ret_no_self)]
     pub fn new<P: Into<PathBuf>>(path: P) -> Rc<Self> {
         Rc::new(Self {
-            storage: MemoryMappedFileStorage::default(),
+            storage: Rc::default(),
             path: path.into(),
         })
     }
@@ -68,7 +69,10 @@ impl FileResourceStorage {
 
 impl ResourceStorage for FileResourceStorage {
     fn subdir(&self, dir: &str) -> Rc<ResourceStorage> {
-        Self::new(self.path.join(dir))
+        Rc::new(Self {
+            storage: self.storage.clone(),
+            path: self.path.join(dir),
+        })
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-- 
2.43.0


From 5ab7c56ab2cd8b27f0c73d90a209a79f2e743fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 17/23] fix: discard former data of a resource before its
 schema is replaced

When an external vector or a multivector was created over a resource with
another schema, the new schema was written while the old data still existed. If
this was interrupted or failed right then, the old data could be read as if it
had the new schema.
---
 src/storage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index af8f878..59c7a31 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -136,11 +136,13 @@ fn create_resource_handle<'a>(
     resource_name: &str,
     schema: &str,
 ) -> io::Result<ResourceHandle<'a>> {
+    // Discards former data first, which may not match the schema.
+    let data_writer = storage.create_output_stream(resource_name)?;
+
     let schema_name = format!("{}.schema", resource_name);
     let stream = storage.create_output_stream(&schema_name)?;
     stream.borrow_mut().write_all(schema.as_bytes())?;
 
-    let data_writer = storage.create_output_stream(resource_name)?;
     ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)
 }
 
-- 
2.43.0


From 4f5a2f249a6502e1c7ea54252b197e72d6f57776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:18 +0000
Subject: [PATCH 18/23] fix: panic on vector sizes which overflow instead of
 wrapping around

Without overflow checks, a vector of a length whose size does not fit into usize
was created much shorter than requested, and space for that many elements was
silently not reserved.
---
 src/vector.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 8c65474..079d545 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -113,7 +113,11 @@ where
     /// if capacity is already sufficient.
     #[inline]
     pub fn reserve(&mut self, additional: usize) {
-        let additional_bytes = Self::calc_size(self.len() + additional) - self.size_in_bytes();
+        let new_len = self
+            .len()
+            .checked_add(additional)
+            .expect("capacity overflow");
+        let additional_bytes = Self::calc_size(new_len) - self.size_in_bytes();
         self.data.reserve(additional_bytes)
     }
 
@@ -167,7 +171,9 @@ where
     /// elements.
     #[inline]
     fn calc_size(len: usize) -> usize {
-        len * <T as Struct>::SIZE_IN_BYTES + memory::PADDING_SIZE
+        len.checked_mul(<T as Struct>::SIZE_IN_BYTES)
+            .and_then(|size| size.checked_add(memory::PADDING_SIZE))
+            .expect("capacity overflow")
     }
 }
 
-- 
2.43.0


From 22a07ed8368d7ffd7a88b824b8f388b2b3ec4c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:42 +0000
Subject: [PATCH 19/23] fix: identify mapped files by their paths instead of
 strings

The same file can be written as several strings (a/./b, a//b), so that
outdated data was read after it was written by another one. Files below a
path which is not UTF-8 could be written but not read.
---
 src/filestorage.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 1016760..dab57b8 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -6,20 +6,21 @@ use std::cell::RefCell;
 use std::collections::BTreeMap;
 use std::fs::{self, File};
 use std::io;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use std::slice;
 
 /// Internal storage of data as files.
 #[derive(Debug, Default)]
 struct MemoryMappedFileStorage {
-    maps: RefCell<BTreeMap<String, Mmap>>,
+    // Keys are paths, since different strings can be the same path.
+    maps: RefCell<BTreeMap<PathBuf, Mmap>>,
     // Outdated mappings, which have to live as long as the storage too.
     outdated_maps: RefCell<Vec<Mmap>>,
 }
 
 impl MemoryMappedFileStorage {
-    pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
+    pub fn read(&self, path: &Path) -> Result<&[u8], io::Error> {
         let file = File::open(path)?;
         let file_len = file.metadata()?.len();
         if file_len == 0 {
@@ -40,7 +41,7 @@ impl MemoryMappedFileStorage {
     }
 
     /// Makes sure that a file is mapped anew when it is read the next time.
-    pub fn forget(&self, path: &str) {
+    pub fn forget(&self, path: &Path) {
         let map = self.maps.borrow_mut().remove(path);
         self.outdated_maps.borrow_mut().extend(map);
     }
@@ -88,13 +89,7 @@ impl ResourceStorage for FileResourceStorage {
             ));
         }
 
-        match resource_path.to_str() {
-            Some(p) => self.storage.read(p),
-            None => Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                String::from(resource_path.to_str().unwrap_or(resource_name)),
-            )),
-        }
+        self.storage.read(&resource_path)
     }
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
@@ -102,9 +97,7 @@ impl ResourceStorage for FileResourceStorage {
         if let Some(dir) = resource_path.parent() {
             fs::create_dir_all(dir)?;
         }
-        if let Some(path) = resource_path.to_str() {
-            self.storage.forget(path);
-        }
+        self.storage.forget(&resource_path);
         // Replace an existing file instead of truncating it, since it may be still mapped.
         if let Err(e) = fs::remove_file(&resource_path) {
             if e.kind() != io::ErrorKind::NotFound {
-- 
2.43.0


From 1085f691f0f8fbef683f1ea0866a82b0c9842ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:50 +0000
Subject: [PATCH 20/23] fix: do not take directories for resources

---
 src/filestorage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index dab57b8..16a18c4 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -77,12 +77,13 @@ impl ResourceStorage for FileResourceStorage {
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-        self.path.join(resource_name).exists()
+        self.path.join(resource_name).is_file()
     }
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !resource_path.exists() {
+        // Directories are not resources.
+        if !resource_path.is_file() {
             return Err(io::Error::new(
                 io::ErrorKind::NotFound,
                 String::from(resource_path.to_str().unwrap_or(resource_name)),
-- 
2.43.0


From 32aa0d5fd3cfc34cb3aeaa2f98ebb3a0a6a4897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:50 +0000
Subject: [PATCH 21/23] fix: reject struct resources of a wrong size when
 opening an archive

---
 src/archive.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/archive.rs b/src/archive.rs
index de87727..17937db 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -495,6 +495,23 @@ macro_rules! define_archive {
                 storage.read(name, schema).map(|x|R::from($crate::MemoryDescriptor::new(&x)))
             }
 
+            #[allow(dead_code)]
+            fn read_struct<T, R>(
+                storage: &$crate::ResourceStorage,
+                name: &str,
+                schema: &str,
+            ) -> Result<R, $crate::ResourceStorageError>
+            where
+                T: for<'a> $crate::Struct<'a>,
+                R: From<$crate::MemoryDescriptor>,
+            {
+                let data = storage.read(name, schema)?;
+                if data.len() != <T as $crate::Struct>::SIZE_IN_BYTES {
+                    return Err($crate::ResourceStorageError::UnexpectedDataSize);
+                }
+                Ok(R::from($crate::MemoryDescriptor::new(data)))
+            }
+
             $(pub fn $struct_resource(&self) -> opt!(
                 <$struct_type as $crate::Struct>::Item, $is_optional_struct)
             {
@@ -598,7 +615,7 @@ macro_rules! define_archive {
                     storage.read(&Self::signature_name(Self::NAME), Self::SCHEMA)?;
 
                     $($struct_resource = check_resource!(
-                        Self::read_resource(
+                        Self::read_struct::<$struct_type, _>(
                             &*storage,
                             stringify!($struct_resource),
                             $struct_schema
-- 
2.43.0


From b8d24ca2959f1d6929c612269336755140f8781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:50 +0000
Subject: [PATCH 22/23] fix: views of multivectors with an empty index have no
 items

---
 src/multiarrayview.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index 49e2a7a..6d4958e 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -44,8 +44,8 @@ where
     /// Note that this is not the *total* number of overall elements stored in
     /// the array. An item may be also empty.
     pub fn len(&self) -> usize {
-        // last index element is a sentinel
-        self.index.len() - 1
+        // last index element is a sentinel; an empty index has no items either
+        self.index.len().saturating_sub(1)
     }
 
     /// Returns `true` if no item is stored in the array.
@@ -83,9 +83,11 @@ where
         let index_end = match range.end_bound() {
             Bound::Included(&idx) => idx.checked_add(2).expect("index overflow"),
             Bound::Excluded(&idx) => idx.checked_add(1).expect("index overflow"),
-            Bound::Unbounded => self.index.len(),
+            Bound::Unbounded => self.len() + 1,
         };
-        assert!(index_start < index_end);
+        assert!(index_start < index_end && index_end <= self.len() + 1);
+        // an empty index has no sentinel
+        let index_end = index_end.min(self.index.len());
         Self::new(self.index.slice(index_start..index_end), self.data)
     }
 
-- 
2.43.0


From 5293ddb63b153d147977ad0773a00b8cc68c109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:49 +0000
Subject: [PATCH 23/23] fix: report an error when the data of a multivector
 does not fit its index

The start of each bucket is stored in the index. Positions which exceeded the type of the
index were truncated silently, so that closing succeeded although the buckets were wrong.
---
 src/multivector.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/multivector.rs b/src/multivector.rs
index ec3690a..6926cf3 100644
--- a/src/multivector.rs
+++ b/src/multivector.rs
@@ -1,4 +1,4 @@
-use crate::archive::{IndexStruct, VariadicRef, VariadicStruct};
+use crate::archive::{IndexStruct, Struct, VariadicRef, VariadicStruct};
 use crate::error::ResourceStorageError;
 use crate::memory;
 use crate::multiarrayview::MultiArrayView;
@@ -183,12 +183,28 @@ where
         Ok(())
     }
 
+    /// Size of the data which was added so far.
+    fn data_size(&self) -> usize {
+        self.size_flushed + self.data.len() - memory::PADDING_SIZE
+    }
+
     fn add_to_index(&mut self) -> io::Result<()> {
+        let data_size = self.data_size();
         let idx_mut = self.index.grow()?;
-        <Idx as IndexStruct>::set_index(
-            idx_mut,
-            self.size_flushed + self.data.len() - memory::PADDING_SIZE,
-        );
+        <Idx as IndexStruct>::set_index(idx_mut, data_size);
+        Ok(())
+    }
+
+    /// Checks that the size of the data, and thus each position inside of it, fits into the index.
+    fn check_index(&self) -> io::Result<()> {
+        let mut entry = vec![0; <Idx as Struct>::SIZE_IN_BYTES + memory::PADDING_SIZE];
+        <Idx as IndexStruct>::set_index(<Idx as Struct>::create_mut(&mut entry), self.data_size());
+        if <Idx as IndexStruct>::index(<Idx as Struct>::create(&entry)) != self.data_size() {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "size of data does not fit into the index",
+            ));
+        }
         Ok(())
     }
 
@@ -196,11 +212,17 @@ where
     /// finalizes the data inside the storage.
     ///
     /// A multivector *must* be closed, otherwise it will panic on drop
+    ///
+    /// Returns an error if the data does not fit into the type of the index.
     pub fn close(mut self) -> Result<MultiArrayView<'a, Idx, Ts>, ResourceStorageError> {
         let name: String = self.data_handle.name().into();
         let into_storage_error = |e| ResourceStorageError::from_io_error(e, name.clone());
         // sentinel for last item
-        if let Err(e) = self.add_to_index().and_then(|_| self.flush()) {
+        if let Err(e) = self
+            .check_index()
+            .and_then(|_| self.add_to_index())
+            .and_then(|_| self.flush())
+        {
             self.index.abort();
             self.data_handle.abort();
             return Err(into_storage_error(e));
-- 
2.43.0

