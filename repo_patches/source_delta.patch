From 87f67020e07ddec8e3fd7fc346897188502866db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 01/20] verif: hooks for contract harnesses, guarded by
 cfg(md_verif)

---
 src/block_device/mod.rs       | 5 +++++
 src/block_device/reader.rs    | 5 +++++
 src/ext/multi_map.rs          | 3 +++
 src/ext4/directory/mod.rs     | 5 +++++
 src/ext4/file.rs              | 5 +++++
 src/ext4/fs.rs                | 5 +++++
 src/ext4/inode/mod.rs         | 5 +++++
 src/ext4/mod.rs               | 5 +++++
 src/main.rs                   | 6 ++++++
 src/md/array.rs               | 8 ++++++++
 src/md/definition.rs          | 3 +++
 src/md/device/device.rs       | 5 +++++
 src/md/diagnosis/diagnosis.rs | 3 +++
 src/md/mod.rs                 | 5 +++++
 src/md/superblock/mod.rs      | 5 +++++
 15 files changed, 73 insertions(+)

diff --git a/src/block_device/mod.rs b/src/block_device/mod.rs
index 3eada92..e237560 100644
--- a/src/block_device/mod.rs
+++ b/src/block_device/mod.rs
@@ -14,3 +14,8 @@ pub use self::{
     block_size::BlockSize, file::FileBlockDevice, in_memory::InMemoryBlockDevice,
     native::NativeBlockDevice, reader::BlockDeviceReader,
 };
+
+#[cfg(md_verif)]
+mod verif {
+    include!(concat!(env!("MD_RECOVER_VERIF"), "/block_device.rs"));
+}
diff --git a/src/block_device/reader.rs b/src/block_device/reader.rs
index e6b56d1..26481a3 100644
--- a/src/block_device/reader.rs
+++ b/src/block_device/reader.rs
@@ -96,6 +96,11 @@ impl<D: BlockDevice> Seek for BlockDeviceReader<D> {
     }
 }
 
+#[cfg(md_verif)]
+mod verif {
+    include!(concat!(env!("MD_RECOVER_VERIF"), "/reader.rs"));
+}
+
 #[cfg(test)]
 mod test {
     use crate::block_device::{BlockDeviceReader, BlockSize, InMemoryBlockDevice};
diff --git a/src/ext/multi_map.rs b/src/ext/multi_map.rs
index 4263e34..8dcb999 100644
--- a/src/ext/multi_map.rs
+++ b/src/ext/multi_map.rs
@@ -1,3 +1,6 @@
+#[cfg(md_verif)]
+use crate::verif::HashMap;
+#[cfg(not(md_verif))]
 use std::collections::HashMap;
 use std::hash::Hash;
 
diff --git a/src/ext4/directory/mod.rs b/src/ext4/directory/mod.rs
index c516d2a..e4984d6 100644
--- a/src/ext4/directory/mod.rs
+++ b/src/ext4/directory/mod.rs
@@ -6,3 +6,8 @@ mod file_type;
 
 #[allow(unused_imports)]
 pub use self::directory::Ext4Directory;
+
+#[cfg(md_verif)]
+mod verif {
+    include!(concat!(env!("MD_RECOVER_VERIF"), "/ext4_directory.rs"));
+}
diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 952b390..395379a 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -160,3 +160,8 @@ where
         self.inode.metadata_checksum_seed()
     }
 }
+
+#[cfg(md_verif)]
+mod verif {
+    include!(concat!(env!("MD_RECOVER_VERIF"), "/ext4_file.rs"));
+}
diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 3b5321f..debff41 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -131,6 +131,11 @@ where
     }
 }
 
+#[cfg(md_verif)]
+mod verif {
+    include!(concat!(env!("MD_RECOVER_VERIF"), "/ext4_fs.rs"));
+}
+
 #[cfg(test)]
 pub(in crate::ext4) mod test {
     use crate::block_device::{BlockSize, InMemoryBlockDevice};
diff --git a/src/ext4/inode/mod.rs b/src/ext4/inode/mod.rs
index 3635bed..ce72f19 100644
--- a/src/ext4/inode/mod.rs
+++ b/src/ext4/inode/mod.rs
@@ -13,3 +13,8 @@ mod time;
 pub use self::{
     file_mode::FileMode, file_type::FileType, flags::Flags, inode::Inode, permissions::Permissions,
 };
+
+#[cfg(md_verif)]
+mod verif {
+    include!(concat!(env!("MD_RECOVER_VERIF"), "/ext4_inode.rs"));
+}
diff --git a/src/ext4/mod.rs b/src/ext4/mod.rs
index 5dc78f6..2c6fe28 100644
--- a/src/ext4/mod.rs
+++ b/src/ext4/mod.rs
@@ -14,3 +14,8 @@ mod units;
 pub use self::{
     directory::Ext4Directory, file::Ext4File, fs::Ext4Fs, regular_file::Ext4RegularFile,
 };
+
+#[cfg(md_verif)]
+mod verif {
+    include!(concat!(env!("MD_RECOVER_VERIF"), "/ext4.rs"));
+}
diff --git a/src/main.rs b/src/main.rs
index c260d95..35d9e75 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code, clippy::module_inception)]
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 extern crate arrayref;
@@ -17,6 +18,11 @@ mod ext4;
 mod ioctl;
 mod md;
 
+#[cfg(md_verif)]
+mod verif {
+    include!(concat!(env!("MD_RECOVER_VERIF"), "/root.rs"));
+}
+
 #[derive(Parser, Debug)]
 #[command(author, version, about)]
 struct Options {
diff --git a/src/md/array.rs b/src/md/array.rs
index a93a272..e860881 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -6,6 +6,9 @@ use crate::md::format::MdFormat;
 use crate::md::units::SectorNumber;
 use crate::md::MdDevice;
 use itertools::{Either, EitherOrBoth, Itertools};
+#[cfg(md_verif)]
+use crate::verif::HashMap;
+#[cfg(not(md_verif))]
 use std::collections::HashMap;
 use std::io;
 use std::io::{Read, Seek, SeekFrom};
@@ -178,3 +181,8 @@ where
         })
     }
 }
+
+#[cfg(md_verif)]
+mod verif {
+    include!(concat!(env!("MD_RECOVER_VERIF"), "/md_array.rs"));
+}
diff --git a/src/md/definition.rs b/src/md/definition.rs
index 3292f36..12fdb69 100644
--- a/src/md/definition.rs
+++ b/src/md/definition.rs
@@ -6,6 +6,9 @@ use crate::md::format::MdFormat;
 use crate::md::superblock::{ArrayUuid, MdDeviceRole, ReshapeStatus};
 use crate::md::units::{DeviceCount, DeviceNumber, MetadataEventCount, SectorCount};
 use crate::md::{MdDevice, MdDeviceId, MdDeviceSuperblock};
+#[cfg(md_verif)]
+use crate::verif::{HashMap, HashSet};
+#[cfg(not(md_verif))]
 use std::collections::{HashMap, HashSet};
 use std::ffi::OsString;
 use std::io::{Read, Seek};
diff --git a/src/md/device/device.rs b/src/md/device/device.rs
index 09279da..3f45366 100644
--- a/src/md/device/device.rs
+++ b/src/md/device/device.rs
@@ -109,3 +109,8 @@ where
         })
     }
 }
+
+#[cfg(md_verif)]
+mod verif {
+    include!(concat!(env!("MD_RECOVER_VERIF"), "/md_device.rs"));
+}
diff --git a/src/md/diagnosis/diagnosis.rs b/src/md/diagnosis/diagnosis.rs
index b1c9c26..e98e583 100644
--- a/src/md/diagnosis/diagnosis.rs
+++ b/src/md/diagnosis/diagnosis.rs
@@ -2,6 +2,9 @@ use crate::md::algorithm::MdAlgorithm;
 use crate::md::device::MdDeviceId;
 use crate::md::superblock::{ArrayUuid, MdDeviceRole, ReshapeStatus};
 use crate::md::units::{DeviceCount, MetadataEventCount, SectorCount};
+#[cfg(md_verif)]
+use crate::verif::{HashMap, HashSet};
+#[cfg(not(md_verif))]
 use std::collections::{HashMap, HashSet};
 use std::ffi::OsString;
 use std::rc::Rc;
diff --git a/src/md/mod.rs b/src/md/mod.rs
index 6c71e93..4245614 100644
--- a/src/md/mod.rs
+++ b/src/md/mod.rs
@@ -14,3 +14,8 @@ pub use self::{
     array::MdArray,
     device::{MdDevice, MdDeviceId, MdDeviceSuperblock},
 };
+
+#[cfg(md_verif)]
+mod verif {
+    include!(concat!(env!("MD_RECOVER_VERIF"), "/md.rs"));
+}
diff --git a/src/md/superblock/mod.rs b/src/md/superblock/mod.rs
index 74b408d..b7eca83 100644
--- a/src/md/superblock/mod.rs
+++ b/src/md/superblock/mod.rs
@@ -10,3 +10,8 @@ pub use self::{
     array_uuid::ArrayUuid, reshape_status::ReshapeStatus, role::MdDeviceRole,
     superblock::Superblock, version_0::SuperblockVersion0, version_1::SuperblockVersion1,
 };
+
+#[cfg(md_verif)]
+mod verif {
+    include!(concat!(env!("MD_RECOVER_VERIF"), "/md_superblock.rs"));
+}
-- 
2.43.0


From 19e90a419e55cc521c7ed7366baa074e7aebe7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 02/20] fix: bound the copied inode length by the known layout
 and the inode record

---
 src/ext4/inode/inode.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ext4/inode/inode.rs b/src/ext4/inode/inode.rs
index d5b5887..f34c4e7 100644
--- a/src/ext4/inode/inode.rs
+++ b/src/ext4/inode/inode.rs
@@ -55,15 +55,16 @@ impl Inode {
         buffer: impl AsRef<[u8]>,
     ) -> Self {
         let storage = {
-            let source_length = layout::extra_isize::OFFSET
-                + (if buffer.as_ref().len()
+            let source_length = (layout::extra_isize::OFFSET
+                + if buffer.as_ref().len()
                     > layout::extra_isize::OFFSET + layout::extra_isize::SIZE.unwrap()
                 {
                     usize::from(layout::View::new(buffer.as_ref()).extra_isize().read())
                 } else {
                     0
                 })
-                .clamp(0, layout::SIZE.unwrap());
+            .min(layout::SIZE.unwrap())
+            .min(buffer.as_ref().len());
 
             let mut storage = [0u8; layout::SIZE.unwrap()];
             storage[..source_length].copy_from_slice(&buffer.as_ref()[..source_length]);
-- 
2.43.0


From 290829e802581ccedc42f66b4bbd035c51be4624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 03/20] fix: reject ext4 geometry that made Ext4Fs::open or
 inode reads panic

---
 src/ext4/fs.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index debff41..b36dc1e 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -24,18 +24,24 @@ impl<D> Ext4Fs<D>
 where
     D: BlockDevice + Read + Seek,
 {
+    /// The largest block size that ext4 defines.
+    const MAX_BLOCK_SIZE: u64 = 65536;
+
+    /// The size of the fixed part of an inode.
+    const MIN_INODE_SIZE: u16 = 128;
+
     pub fn open(mut device: D) -> io::Result<Self> {
         device.seek(SeekFrom::Start(1024))?;
         let superblock = Superblock::read(&mut device)?;
 
         let block_count = superblock.blocks_count();
         let blocks_per_group = u64::from(superblock.blocks_per_group());
-        let group_count = usize::try_from(u64::from(block_count).div_ceil(blocks_per_group))
-            .or(Err(io::ErrorKind::Unsupported))?;
         let group_size = usize::from(superblock.group_descriptor_size());
 
         if blocks_per_group == 0
             || group_size == 0
+            || superblock.block_size_bytes() > Self::MAX_BLOCK_SIZE
+            || superblock.inode_size() < Self::MIN_INODE_SIZE
             || superblock.inodes_per_group() == InodeCount(0)
             || superblock.creator_os() != CreatorOs::Linux
             || !superblock
@@ -46,11 +52,13 @@ where
             return Err(io::ErrorKind::Unsupported.into());
         }
 
+        let group_count = u64::from(block_count).div_ceil(blocks_per_group);
         let group_descriptors_block_number = u64::from(superblock.first_data_block()) + 1;
         device.seek(SeekFrom::Start(
             group_descriptors_block_number * superblock.block_size_bytes(),
         ))?;
-        let mut group_descriptors = Vec::with_capacity(group_count);
+        // The group count is not trusted: grow as descriptors are actually read.
+        let mut group_descriptors = Vec::new();
         for _ in 0..group_count {
             let mut buf = vec![0u8; group_size];
             device.read_exact(&mut buf)?;
-- 
2.43.0


From abf95de83ca796475930026ea1b93096f6058a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 04/20] fix: read exactly one ext4 block however long the
 buffer is

---
 src/ext4/fs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index b36dc1e..1eb7294 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -121,7 +121,8 @@ where
         block_number: FsBlockNumber,
         buf: &mut [u8],
     ) -> io::Result<()> {
-        if buf.len() < self.block_size() {
+        let block_size = self.block_size();
+        if buf.len() < block_size {
             Err(io::ErrorKind::InvalidInput.into())
         } else {
             self.device.seek(SeekFrom::Start(
@@ -129,7 +130,7 @@ where
                     .checked_mul(self.superblock.block_size_bytes())
                     .ok_or(io::ErrorKind::InvalidInput)?,
             ))?;
-            self.device.read_exact(buf)?;
+            self.device.read_exact(&mut buf[..block_size])?;
             Ok(())
         }
     }
-- 
2.43.0


From 7d255983b80cdb87f750bfad57abd3b8e8b67984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 05/20] fix: decode a length of 0x8000 as an initialized extent
 of 32768 blocks

---
 src/ext4/extent/extent.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ext4/extent/extent.rs b/src/ext4/extent/extent.rs
index 9eda2d8..224293a 100644
--- a/src/ext4/extent/extent.rs
+++ b/src/ext4/extent/extent.rs
@@ -12,6 +12,10 @@ binary_layout!(layout, LittleEndian, {
 pub struct Extent<S: AsRef<[u8]>>(layout::View<S>);
 
 impl<S: AsRef<[u8]>> Extent<S> {
+    /// Lengths up to this are initialized extents, lengths above it are
+    /// unwritten extents biased by it.
+    const MAX_INITIALIZED_LENGTH: u16 = 0x8000;
+
     pub fn new(storage: S) -> Self {
         Self(layout::View::new(storage))
     }
@@ -21,11 +25,16 @@ impl<S: AsRef<[u8]>> Extent<S> {
     }
 
     pub fn initialized(&self) -> bool {
-        self.0.length().read() & 0x8000 != 0x8000
+        self.0.length().read() <= Self::MAX_INITIALIZED_LENGTH
     }
 
     pub fn length(&self) -> BlockCount<u16> {
-        BlockCount(self.0.length().read() & 0x7fff)
+        let length = self.0.length().read();
+        BlockCount(if self.initialized() {
+            length
+        } else {
+            length - Self::MAX_INITIALIZED_LENGTH
+        })
     }
 
     pub fn first_fs_block_number(&self) -> FsBlockNumber {
-- 
2.43.0


From 7d687079aac16e1ce64df27def17c9c4fb204b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:47 +0000
Subject: [PATCH 06/20] fix: locate the extent block checksum after the node's
 capacity

---
 src/ext4/extent/tree.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ext4/extent/tree.rs b/src/ext4/extent/tree.rs
index 30198e2..c4ef250 100644
--- a/src/ext4/extent/tree.rs
+++ b/src/ext4/extent/tree.rs
@@ -206,7 +206,13 @@ impl<S: AsRef<[u8]>> ExtentTreeInternal<S> {
             return false;
         }
 
-        let entries_size = self.entries_size();
+        if self.entry_count() > self.max_entries() {
+            return false;
+        }
+
+        // The checksum covers, and the tail follows, the whole capacity of the
+        // node rather than just the entries in use.
+        let entries_size = self.max_entries() * index::layout::SIZE.unwrap();
 
         let tail_size = match self.checksum_seed {
             Some(_) => tail::layout::SIZE.unwrap(),
-- 
2.43.0


From 32eb93b987ef8fc07f32812fb97126a6de788eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 07/20] fix: validate extent tree nodes and their depth before
 following them

---
 src/ext4/extent/tree.rs | 7 +++++++
 src/ext4/file.rs        | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/ext4/extent/tree.rs b/src/ext4/extent/tree.rs
index c4ef250..1672b6b 100644
--- a/src/ext4/extent/tree.rs
+++ b/src/ext4/extent/tree.rs
@@ -47,6 +47,13 @@ impl<S: AsRef<[u8]>> ExtentTree<S> {
         }
     }
 
+    pub fn depth(&self) -> u16 {
+        match self {
+            ExtentTree::Branch(branch) => branch.0.depth(),
+            ExtentTree::Leaf(leaf) => leaf.0.depth(),
+        }
+    }
+
     pub fn entry_count(&self) -> usize {
         match self {
             ExtentTree::Branch(branch) => branch.subtree_count(),
diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 395379a..6501552 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -61,6 +61,10 @@ where
             .ok_or(io::ErrorKind::Unsupported)?
             .to_owned();
 
+        if !tree.valid() {
+            return Err(io::ErrorKind::InvalidData.into());
+        }
+
         Ok(Self {
             fs,
             inode,
@@ -94,6 +98,7 @@ where
                 }
                 Some(ReadStackEntry::Tree { tree, pos }) => {
                     if pos < tree.entry_count() {
+                        let depth = tree.depth();
                         match tree {
                             ExtentTree::Branch(branch) => {
                                 let index = branch.subtree_index_at(pos).unwrap();
@@ -103,6 +108,9 @@ where
                                 let mut subtree_block = vec![0; self.fs.block_size()];
                                 self.fs.read_block(index.leaf(), &mut subtree_block)?;
                                 let subtree = ExtentTree::from_block(&self.inode, subtree_block);
+                                if !subtree.valid() || subtree.depth() != depth - 1 {
+                                    return Err(io::ErrorKind::InvalidData.into());
+                                }
                                 self.read_stack.push(ReadStackEntry::Tree {
                                     tree: ExtentTree::Branch(branch),
                                     pos: pos + 1,
-- 
2.43.0


From 4fdc7729da55b519e2b95346dd93be32d2a7a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 08/20] fix: read unwritten extents as zeros

---
 src/ext4/file.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 6501552..7c5b535 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -143,8 +143,12 @@ where
                             return Err(io::ErrorKind::InvalidData.into());
                         }
 
-                        self.fs
-                            .read_block(extent.first_fs_block_number() + pos, buf)?;
+                        if extent.initialized() {
+                            self.fs
+                                .read_block(extent.first_fs_block_number() + pos, buf)?;
+                        } else {
+                            buf[..self.fs.block_size()].fill(0);
+                        }
                         let bytes_read = usize::try_from(self.file_size_bytes() - self.byte_pos)
                             .unwrap_or(usize::MAX)
                             .clamp(0, self.fs.block_size());
-- 
2.43.0


From c45804ba2823a4ab7d5384cd15c93553c5a481bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 09/20] fix: limit directory entry names to their recorded
 length

---
 src/ext4/directory/dir_entry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ext4/directory/dir_entry.rs b/src/ext4/directory/dir_entry.rs
index 2c293e4..c673860 100644
--- a/src/ext4/directory/dir_entry.rs
+++ b/src/ext4/directory/dir_entry.rs
@@ -31,7 +31,8 @@ impl<'buf> DirEntry<&'buf [u8]> {
 
 impl<S: AsRef<[u8]>> DirEntry<S> {
     pub fn name(&self) -> Ext4String<&[u8]> {
-        Ext4String::from_null_terminated_bytes(self.view().into_name().into_slice())
+        let name_length = usize::from(self.view().name_length().read());
+        Ext4String::from_null_terminated_bytes(&self.view().into_name().into_slice()[..name_length])
     }
 
     pub fn file_type(&self) -> Ext4DirectoryInlineFileType {
-- 
2.43.0


From 75f5b5a0bb8fe067b7df9264463f5e3f6b14938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 10/20] fix: order and hash ext4 strings by the bytes that
 equality compares

---
 src/ext4/string.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ext4/string.rs b/src/ext4/string.rs
index 63788d7..d84527f 100644
--- a/src/ext4/string.rs
+++ b/src/ext4/string.rs
@@ -73,15 +73,13 @@ impl<S: AsRef<[u8]>> PartialOrd for Ext4String<S> {
 
 impl<S: AsRef<[u8]>> Ord for Ext4String<S> {
     fn cmp(&self, other: &Self) -> Ordering {
-        let left = self.to_str_lossy();
-        let right = other.to_str_lossy();
-        left.cmp(&right)
+        self.0.as_ref().cmp(other.0.as_ref())
     }
 }
 
 impl<S: AsRef<[u8]>> Hash for Ext4String<S> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.to_str_lossy().hash(state)
+        self.0.as_ref().hash(state)
     }
 }
 
-- 
2.43.0


From 73061be8de88e6d7951d2953794fa4f6c94bbb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 11/20] fix: accept the highest device position as a valid role

---
 src/md/superblock/role.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/md/superblock/role.rs b/src/md/superblock/role.rs
index 57223cf..ca87173 100644
--- a/src/md/superblock/role.rs
+++ b/src/md/superblock/role.rs
@@ -16,7 +16,7 @@ impl MdDeviceRole {
     }
 
     pub fn is_valid(&self) -> bool {
-        !(Self::MAX_POSITION..Self::JOURNAL).contains(&self.0)
+        !self.is_invalid()
     }
 
     pub fn device_number(&self) -> Option<DeviceNumber> {
-- 
2.43.0


From 52b5388c95e72f0747230b2c821552588f49ebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:09 +0000
Subject: [PATCH 12/20] fix: report out-of-range in-memory block reads instead
 of panicking

---
 src/block_device/in_memory.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/block_device/in_memory.rs b/src/block_device/in_memory.rs
index d4bac11..7d90a95 100644
--- a/src/block_device/in_memory.rs
+++ b/src/block_device/in_memory.rs
@@ -35,14 +35,20 @@ impl BlockDevice for InMemoryBlockDevice {
         if buf.len() < usize::from(self.block_size) {
             Err(io::ErrorKind::InvalidInput.into())
         } else {
+            let block_size = usize::from(self.block_size);
             let offset = usize::try_from(
                 block_number
                     .byte_pos(self.block_size)
                     .ok_or(io::ErrorKind::InvalidInput)?,
             )
             .or(Err(io::Error::from(io::ErrorKind::InvalidInput)))?;
-            buf.copy_from_slice(&self.mem[offset..][..usize::from(self.block_size)]);
-            Ok(usize::from(self.block_size))
+            let block = self
+                .mem
+                .get(offset..)
+                .and_then(|rest| rest.get(..block_size))
+                .ok_or(io::ErrorKind::UnexpectedEof)?;
+            buf[..block_size].copy_from_slice(block);
+            Ok(block_size)
         }
     }
 
-- 
2.43.0


From 3925e3b746bbf45e9b9fea51d884aebd9716f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 13/20] fix: read md members relative to their data offset

---
 src/md/array.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index e860881..a9b5b94 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -161,9 +161,16 @@ where
                     .ok_or(io::ErrorKind::InvalidInput)?
                     .as_ref()
                     .try_clone()?;
+                let data_offset = device
+                    .superblock
+                    .as_option()
+                    .ok_or(io::ErrorKind::InvalidInput)?
+                    .data_offset();
                 let mut reader = BlockDeviceReader::new(device);
                 reader.seek(SeekFrom::Start(
-                    u64::from(sector_number)
+                    u64::from(data_offset)
+                        .checked_add(u64::from(sector_number))
+                        .ok_or(io::ErrorKind::InvalidInput)?
                         .checked_mul(512)
                         .ok_or(io::ErrorKind::InvalidInput)?,
                 ))?;
-- 
2.43.0


From b3ada705f70e5c1580af845acbc7ae88ed8f3dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 14/20] fix: accept buffers longer than a sector when reading
 an array

---
 src/md/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index a9b5b94..fe3e572 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -178,7 +178,7 @@ where
                 Ok(512)
             },
         )?;
-        buf.copy_from_slice(&block);
+        buf[..512].copy_from_slice(&block);
         Ok(512)
     }
 
-- 
2.43.0


From 79f14a3b7a48d11c148a6d7c9138bd3c67d8c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:19 +0000
Subject: [PATCH 15/20] fix: only report a version 0 reshape when one is in
 progress

---
 src/md/superblock/version_0/superblock.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/md/superblock/version_0/superblock.rs b/src/md/superblock/version_0/superblock.rs
index dbab112..9744eda 100644
--- a/src/md/superblock/version_0/superblock.rs
+++ b/src/md/superblock/version_0/superblock.rs
@@ -138,7 +138,13 @@ impl Superblock for SuperblockVersion0 {
     }
 
     fn reshape_status(&self) -> Option<ReshapeStatus> {
-        Some(self.reshape_status.clone())
+        // Reshape fields were introduced in minor version 91, which is only
+        // written while a reshape is in progress.
+        if self.minor_version < 91 {
+            None
+        } else {
+            Some(self.reshape_status.clone())
+        }
     }
 
     fn data_offset(&self) -> SectorNumber {
-- 
2.43.0


From 0c8c49c93fc0fd945af0f2fb6ea7db44052af73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 16/20] fix: convert version 0 device and chunk sizes to
 sectors

---
 src/md/superblock/version_0/big_endian/reshape_status.rs    | 3 ++-
 src/md/superblock/version_0/little_endian/reshape_status.rs | 3 ++-
 src/md/superblock/version_0/superblock.rs                   | 6 ++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/md/superblock/version_0/big_endian/reshape_status.rs b/src/md/superblock/version_0/big_endian/reshape_status.rs
index 09037aa..7e42b38 100644
--- a/src/md/superblock/version_0/big_endian/reshape_status.rs
+++ b/src/md/superblock/version_0/big_endian/reshape_status.rs
@@ -26,7 +26,8 @@ impl<S: AsRef<[u8]>> From<ReshapeStatusVersion0<S>> for ReshapeStatus {
             ),
             reshape_position: value.reshape_position().read(),
             delta_devices: value.delta_devices().read(),
-            new_chunk_size: value.new_chunk_size().read(),
+            // Stored in bytes.
+            new_chunk_size: SectorCount(u32::from(value.new_chunk_size().read()) / 512),
             new_offset: 0,
         }
     }
diff --git a/src/md/superblock/version_0/little_endian/reshape_status.rs b/src/md/superblock/version_0/little_endian/reshape_status.rs
index e083693..e2a3865 100644
--- a/src/md/superblock/version_0/little_endian/reshape_status.rs
+++ b/src/md/superblock/version_0/little_endian/reshape_status.rs
@@ -26,7 +26,8 @@ impl<S: AsRef<[u8]>> From<ReshapeStatusVersion0<S>> for ReshapeStatus {
             ),
             reshape_position: value.reshape_position().read(),
             delta_devices: value.delta_devices().read(),
-            new_chunk_size: value.new_chunk_size().read(),
+            // Stored in bytes.
+            new_chunk_size: SectorCount(u32::from(value.new_chunk_size().read()) / 512),
             new_offset: 0,
         }
     }
diff --git a/src/md/superblock/version_0/superblock.rs b/src/md/superblock/version_0/superblock.rs
index 9744eda..b1ecfc9 100644
--- a/src/md/superblock/version_0/superblock.rs
+++ b/src/md/superblock/version_0/superblock.rs
@@ -126,11 +126,13 @@ impl Superblock for SuperblockVersion0 {
     }
 
     fn sectors_per_device(&self) -> SectorCount<u64> {
-        self.sectors_per_device.into()
+        // Stored in KiB.
+        SectorCount(u64::from(self.sectors_per_device) * 2)
     }
 
     fn chunk_size(&self) -> SectorCount<u32> {
-        self.chunk_size
+        // Stored in bytes.
+        SectorCount(u32::from(self.chunk_size) / 512)
     }
 
     fn raid_device_count(&self) -> DeviceCount {
-- 
2.43.0


From e8c8910a078293ba33ee07499f0b31492b85aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 17/20] verif: keep the guarded import formatted

---
 src/md/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index fe3e572..ee1ad8d 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -5,9 +5,9 @@ use crate::md::diagnosis::Diagnosis;
 use crate::md::format::MdFormat;
 use crate::md::units::SectorNumber;
 use crate::md::MdDevice;
-use itertools::{Either, EitherOrBoth, Itertools};
 #[cfg(md_verif)]
 use crate::verif::HashMap;
+use itertools::{Either, EitherOrBoth, Itertools};
 #[cfg(not(md_verif))]
 use std::collections::HashMap;
 use std::io;
-- 
2.43.0


From a27bf74cda1ea0301ea77b7f1a733bd5070fa0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:16 +0000
Subject: [PATCH 18/20] verif: hook inside md::superblock::version_0

---
 src/md/superblock/version_0/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/md/superblock/version_0/mod.rs b/src/md/superblock/version_0/mod.rs
index 9bff09f..f8fd888 100644
--- a/src/md/superblock/version_0/mod.rs
+++ b/src/md/superblock/version_0/mod.rs
@@ -5,3 +5,8 @@ mod superblock;
 
 #[allow(unused_imports)]
 pub use superblock::SuperblockVersion0;
+
+#[cfg(md_verif)]
+mod verif {
+    include!(concat!(env!("MD_RECOVER_VERIF"), "/md_superblock_0.rs"));
+}
-- 
2.43.0


From 0daf5c1418744ebfe9a13c3a584c4a17fdc223ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:08 +0000
Subject: [PATCH 19/20] fix: reject extents that reach past the last logical
 block

---
 src/ext4/file.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 7c5b535..9ffa915 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -122,7 +122,11 @@ where
                             }
                             ExtentTree::Leaf(leaf) => {
                                 let extent = leaf.extent_at(pos).unwrap().into_owned();
-                                if extent.first_file_block_number() != self.block_pos {
+                                if extent.first_file_block_number() != self.block_pos
+                                    || u32::from(self.block_pos)
+                                        .checked_add(extent.length().0.into())
+                                        .is_none()
+                                {
                                     return Err(io::ErrorKind::InvalidData.into());
                                 }
                                 self.read_stack.push(ReadStackEntry::Tree {
-- 
2.43.0


From b66823cb9a8b57e5806c8b0e41d18e8c31750b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:11 +0000
Subject: [PATCH 20/20] fix: reject extent index entries that do not advance

---
 src/ext4/file.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 9ffa915..95f3ca7 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -102,7 +102,13 @@ where
                         match tree {
                             ExtentTree::Branch(branch) => {
                                 let index = branch.subtree_index_at(pos).unwrap();
-                                if index.block() != self.block_pos {
+                                // An entry must start where reading has got to, and after
+                                // the entry before it: otherwise empty nodes that are
+                                // linked to repeatedly take forever to walk.
+                                let advances = pos == 0
+                                    || branch.subtree_index_at(pos - 1).unwrap().block()
+                                        < index.block();
+                                if index.block() != self.block_pos || !advances {
                                     return Err(io::ErrorKind::InvalidData.into());
                                 }
                                 let mut subtree_block = vec![0; self.fs.block_size()];
-- 
2.43.0

