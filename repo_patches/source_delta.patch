From 6e20680f9667a8a5a513d144be0f629360fb16c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 01/21] fix: look inside the container pack found by FsLocator

In TwoFiles and NoConcat modes the content and directory packs are stored in
their own container pack. FsLocator returned a reader on the whole file, so the
pack could not be opened, and it never compared the uuid it was asked for.
---
 src/reader/locator.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reader/locator.rs b/src/reader/locator.rs
index a3544ad..a21ad16 100644
--- a/src/reader/locator.rs
+++ b/src/reader/locator.rs
@@ -1,3 +1,4 @@
+use super::jubako::open_as_container_pack;
 use crate::bases::*;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -20,10 +21,12 @@ impl FsLocator {
 }
 
 impl PackLocatorTrait for FsLocator {
-    fn locate(&self, _uuid: Uuid, path: &str) -> Result<Option<Reader>> {
+    fn locate(&self, uuid: Uuid, path: &str) -> Result<Option<Reader>> {
         let path = self.base_dir.join(path);
         if path.is_file() {
-            Ok(Some(Reader::from(FileSource::open(path)?)))
+            // The file may be the pack itself or a container pack storing it.
+            let container_pack = open_as_container_pack(FileSource::open(path)?.into())?;
+            Ok(container_pack.get_pack_reader(&uuid))
         } else {
             Ok(None)
         }
-- 
2.43.0


From 5cfa1ca2b334ef37b1c8a0e3878725fb824938e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 02/21] fix: size the cluster tail fields on the biggest of raw
 and data size

When compression makes a cluster bigger, its raw size may need more bytes than
its data size. It was silently truncated and the cluster was unreadable.
---
 src/creator/content_pack/clusterwriter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/creator/content_pack/clusterwriter.rs b/src/creator/content_pack/clusterwriter.rs
index 20d434e..26e2c33 100644
--- a/src/creator/content_pack/clusterwriter.rs
+++ b/src/creator/content_pack/clusterwriter.rs
@@ -88,7 +88,11 @@ fn serialize_cluster_tail(
     raw_data_size: Size,
     ser: &mut Serializer,
 ) -> std::io::Result<()> {
-    let offset_size = needed_bytes(cluster.data_size().into_u64());
+    // Compressed data may be bigger than the original data.
+    let offset_size = needed_bytes(std::cmp::max(
+        cluster.data_size().into_u64(),
+        raw_data_size.into_u64(),
+    ));
     let cluster_header = ClusterHeader::new(
         compression.into(),
         offset_size,
-- 
2.43.0


From 7e541e649afa3f62c193e3295ef174829636d83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 03/21] fix: give signed integer properties enough bytes for
 their sign and magnitude

---
 src/creator/directory_pack/schema/property.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index 4ba74de..7042cb0 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -54,6 +54,11 @@ where
     }
 }
 
+/// Map a signed value to the unsigned value needing the same number of bytes (sign bit included).
+fn signed_extent(v: i64) -> u64 {
+    ((v ^ (v >> 63)) as u64) << 1
+}
+
 #[derive(Default, Debug)]
 pub enum ValueCounter<T> {
     #[default]
@@ -96,7 +101,7 @@ pub enum Property<PN: PropertyName> {
     },
     SignedInt {
         counter: ValueCounter<i64>,
-        size: PropertySize<i64>,
+        size: PropertySize<u64>,
         name: PN,
     },
     Array {
@@ -242,11 +247,11 @@ impl<PN: PropertyName> Property<PN> {
             } => match entry.value(name).as_ref() {
                 Value::Signed(value) => {
                     counter.process(*value);
-                    size.process(*value);
+                    size.process(signed_extent(*value));
                 }
                 Value::SignedWord(value) => {
                     counter.process(value.get());
-                    size.process(value.get());
+                    size.process(signed_extent(value.get()));
                 }
                 _ => {
                     panic!("Value type doesn't correspond to property");
-- 
2.43.0


From 2f188b186efbda61fdb104144d7edc4015d8135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 04/21] fix: refuse to write a SizedOffset which doesn't fit in
 its 64 bits

---
 src/bases/types/sized_offset.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bases/types/sized_offset.rs b/src/bases/types/sized_offset.rs
index a405257..2b268be 100644
--- a/src/bases/types/sized_offset.rs
+++ b/src/bases/types/sized_offset.rs
@@ -35,6 +35,12 @@ impl Parsable for SizedOffset {
 
 impl Serializable for SizedOffset {
     fn serialize(&self, ser: &mut Serializer) -> IoResult<usize> {
+        if self.size.into_u64() > 0xFF_FF_u64 || self.offset.into_u64() > 0xFF_FF_FF_FF_FF_FF_u64 {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!("{self:?} cannot be stored in a SizedOffset"),
+            ));
+        }
         let data: u64 = (self.offset.into_u64() << 16) + (self.size.into_u64() & 0xFF_FF_u64);
         ser.write_u64(data)
     }
-- 
2.43.0


From 75c15a1a66bf6792124e5dd198e67b1d3af4f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 05/21] fix: refuse schemas whose counts or inline array length
 don't fit the format

---
 src/creator/directory_pack/directory_pack.rs  |  7 +++++++
 src/creator/directory_pack/layout/entry.rs    | 17 ++++++++++++++---
 src/creator/directory_pack/schema/property.rs |  4 ++++
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index 6acb990..8faf12d 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -58,6 +58,13 @@ impl DirectoryPackCreator {
     pub fn finalize(self) -> std::io::Result<FinalizedDirectoryPackCreator> {
         info!("======= Finalize creation =======");
 
+        if self.value_stores.len() > u8::MAX as usize {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "A directory pack cannot have more than 255 value stores",
+            ));
+        }
+
         info!("----- Finalize value_stores -----");
         for (idx, value_store) in &mut self.value_stores.iter().enumerate() {
             value_store.finalize(ValueStoreIdx::from(idx as u8));
diff --git a/src/creator/directory_pack/layout/entry.rs b/src/creator/directory_pack/layout/entry.rs
index e790498..a953759 100644
--- a/src/creator/directory_pack/layout/entry.rs
+++ b/src/creator/directory_pack/layout/entry.rs
@@ -35,17 +35,28 @@ impl<PN: PropertyName, VN: VariantName> Entry<PN, VN> {
         Ok(written)
     }
 
-    fn key_count(&self) -> Count<u8> {
-        (self.common.len() as u8 + self.variants.iter().map(|v| v.len() as u8).sum::<u8>()).into()
+    fn key_count(&self) -> usize {
+        self.common.len() + self.variants.iter().map(|v| v.len()).sum::<usize>()
     }
 }
 
 impl<PN: PropertyName, VN: VariantName> Serializable for Entry<PN, VN> {
     fn serialize(&self, ser: &mut Serializer) -> IoResult<usize> {
+        let key_count = self.key_count();
+        if self.variants.len() > u8::MAX as usize || key_count > u8::MAX as usize {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!(
+                    "Schema needs {} variants and {key_count} properties, only {} of each can be stored",
+                    self.variants.len(),
+                    u8::MAX
+                ),
+            ));
+        }
         let mut written = 0;
         written += ser.write_u16(self.entry_size)?;
         written += ser.write_u8(self.variants.len() as u8)?;
-        written += self.key_count().serialize(ser)?;
+        written += Count::<u8>::from(key_count as u8).serialize(ser)?;
         written += self.common.serialize(ser)?;
         for variant in &self.variants {
             written += variant.serialize(ser)?;
diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index 7042cb0..9fe4fe1 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -200,6 +200,10 @@ impl<PN: PropertyName> Property<PN> {
     }
 
     pub fn new_array(fixed_array_len: usize, store_handle: StoreHandle, name: PN) -> Self {
+        assert!(
+            fixed_array_len <= 31,
+            "No more than 31 bytes of an array can be stored in the entry"
+        );
         if fixed_array_len == 0 && store_handle.kind() == ValueStoreKind::Indexed {
             Property::IndirectArray { store_handle, name }
         } else {
-- 
2.43.0


From 79d2aea6c97e7f38b7b9b970b663634a9ff26cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 06/21] fix: read variants whose last properties take no place
 in the entry

---
 src/reader/directory_pack/layout/mod.rs | 47 ++++++++++---------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/src/reader/directory_pack/layout/mod.rs b/src/reader/directory_pack/layout/mod.rs
index 9249217..48bdb28 100644
--- a/src/reader/directory_pack/layout/mod.rs
+++ b/src/reader/directory_pack/layout/mod.rs
@@ -130,32 +130,25 @@ impl Parsable for Layout {
             let variant_id_offset = Offset::from(common_size);
             common_size += 1;
 
-            let mut variant_size = 0;
             let mut variants = Vec::new();
             let mut variants_map = HashMap::new();
-            let mut variant_def = Vec::new();
-            let mut variant_name: Option<SmallString> = None;
-            for raw_property in property_iter {
-                if !raw_property.is_variant_id() && variant_name.is_none() {
+            // A variant definition goes up to the next VariantId (or the end of the properties):
+            // its last properties may take no place in the entry.
+            while let Some(raw_property) = property_iter.next() {
+                if !raw_property.is_variant_id() {
                     return Err(format_error!(
                         "Variant definition must start with a VariantId.",
                         parser
                     ));
                 }
-                if raw_property.is_variant_id() && variant_name.is_some() {
-                    return Err(format_error!(
-                        "VariantId cannot be in the middle of a variant definition.",
-                        parser
-                    ));
+                let variant_name = raw_property.name;
+                let mut variant_size = 0;
+                let mut variant_def = Vec::new();
+                while let Some(raw_property) = property_iter.next_if(|p| !p.is_variant_id()) {
+                    variant_size += raw_property.size;
+                    variant_def.push(raw_property);
                 }
-                if raw_property.is_variant_id() {
-                    // This is a special property
-                    variant_name = Some(raw_property.name);
-                    continue;
-                }
-                variant_size += raw_property.size;
-                variant_def.push(raw_property);
-                match variant_size.cmp(&(entry_size - common_size)) {
+                match (common_size + variant_size).cmp(&entry_size) {
                     Ordering::Greater => {
                         return Err(format_error!(
                             &format!(
@@ -164,22 +157,18 @@ impl Parsable for Layout {
                             parser
                         ))
                     }
+                    Ordering::Less => {
+                        return Err(format_error!(
+                            "VariantId cannot be in the middle of a variant definition.",
+                            parser
+                        ))
+                    }
                     Ordering::Equal => {
                         variants.push(Properties::new(common_size, variant_def).into());
-                        variants_map.insert(variant_name.unwrap(), variants.len() as u8 - 1);
-                        variant_def = Vec::new();
-                        variant_size = 0;
-                        variant_name = None;
-                    }
-                    Ordering::Less => {
-                        /* Noting to do */
-                        continue;
+                        variants_map.insert(variant_name, (variants.len() - 1) as u8);
                     }
                 }
             }
-            if !variant_def.is_empty() {
-                return Err(format_error!("We cannot have left over variant definiton."));
-            }
             if variants.len() != variant_count.into_usize() {
                 return Err(format_error!(
                     &format!(
-- 
2.43.0


From ff1c619cf997a621f11c4724d3b19aebee1ebc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:03 +0000
Subject: [PATCH 07/21] fix: entries with equal sort keys compare equal

---
 src/creator/directory_pack/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/creator/directory_pack/mod.rs b/src/creator/directory_pack/mod.rs
index 284cd4c..592c9da 100644
--- a/src/creator/directory_pack/mod.rs
+++ b/src/creator/directory_pack/mod.rs
@@ -42,7 +42,7 @@ pub trait FullEntryTrait<PN: PropertyName, VN: VariantName>: EntryTrait<PN, VN>
                 },
             }
         }
-        cmp::Ordering::Greater
+        cmp::Ordering::Equal
     }
 }
 
-- 
2.43.0


From e1c4c26bb1f6baa2cf6a978c7f50aee911da9f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 08/21] fix: sort all the entry stores before computing their
 layout

---
 src/creator/directory_pack/directory_pack.rs | 7 ++++++-
 src/creator/directory_pack/entry_store.rs    | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index 8faf12d..ba920fa 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -55,7 +55,7 @@ impl DirectoryPackCreator {
         self.indexes.push(index);
     }
 
-    pub fn finalize(self) -> std::io::Result<FinalizedDirectoryPackCreator> {
+    pub fn finalize(mut self) -> std::io::Result<FinalizedDirectoryPackCreator> {
         info!("======= Finalize creation =======");
 
         if self.value_stores.len() > u8::MAX as usize {
@@ -70,6 +70,11 @@ impl DirectoryPackCreator {
             value_store.finalize(ValueStoreIdx::from(idx as u8));
         }
 
+        info!("----- Sort entry_stores -----");
+        for entry_store in &mut self.entry_stores {
+            entry_store.sort();
+        }
+
         info!("----- Finalize entry_stores -----");
         let finalized_entry_stores: Vec<Box<dyn WritableTell>> = self
             .entry_stores
diff --git a/src/creator/directory_pack/entry_store.rs b/src/creator/directory_pack/entry_store.rs
index 279a252..a0194a1 100644
--- a/src/creator/directory_pack/entry_store.rs
+++ b/src/creator/directory_pack/entry_store.rs
@@ -62,6 +62,10 @@ where
 }
 
 pub trait EntryStoreTrait {
+    /// Set the final position of the entries.
+    /// As entries may reference entries of other stores, this must be done on all the stores
+    /// before finalizing any of them.
+    fn sort(&mut self);
     fn finalize(self: Box<Self>) -> Box<dyn WritableTell>;
 }
 
@@ -71,7 +75,7 @@ where
     VN: VariantName + std::fmt::Debug + Sync + 'static,
     Entry: FullEntryTrait<PN, VN> + Send + 'static,
 {
-    fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
+    fn sort(&mut self) {
         set_entry_idx(&mut self.entries);
         if let Some(keys) = &self.schema.sort_keys {
             let compare = |a: &Entry, b: &Entry| a.compare(&keys, b);
@@ -92,7 +96,9 @@ where
                 }
             }
         }
+    }
 
+    fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
         for entry in &mut self.entries {
             self.schema.process(entry);
         }
-- 
2.43.0


From bbe62aaa0404deaa319a66edc02098219f9db3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 09/21] fix: sort entry stores with a stable sort, so that
 sorting on references ends

---
 src/creator/directory_pack/entry_store.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/creator/directory_pack/entry_store.rs b/src/creator/directory_pack/entry_store.rs
index a0194a1..e580769 100644
--- a/src/creator/directory_pack/entry_store.rs
+++ b/src/creator/directory_pack/entry_store.rs
@@ -79,7 +79,7 @@ where
         set_entry_idx(&mut self.entries);
         if let Some(keys) = &self.schema.sort_keys {
             let compare = |a: &Entry, b: &Entry| a.compare(&keys, b);
-            self.entries.par_sort_unstable_by(compare);
+            self.entries.par_sort_by(compare);
             set_entry_idx(&mut self.entries);
             let mut watchdog = 50;
             while !self
@@ -88,7 +88,7 @@ where
                 .all(|w| w[0].compare(&keys, &w[1]).is_le())
             {
                 debug!(".");
-                self.entries.par_sort_unstable_by(compare);
+                self.entries.par_sort_by(compare);
                 set_entry_idx(&mut self.entries);
                 watchdog -= 1;
                 if watchdog == 0 {
-- 
2.43.0


From dffaf9e9cc5ee4616c6e75238a399c5892746058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:23 +0000
Subject: [PATCH 10/21] fix: count the check info in the size of a container
 pack

---
 src/creator/container_pack.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/creator/container_pack.rs b/src/creator/container_pack.rs
index 8a89860..f92f26f 100644
--- a/src/creator/container_pack.rs
+++ b/src/creator/container_pack.rs
@@ -1,7 +1,9 @@
 use camino::{Utf8Path, Utf8PathBuf};
 
 use crate::bases::*;
-use crate::common::{CheckInfo, ContainerPackHeader, PackHeader, PackHeaderInfo, PackLocator};
+use crate::common::{
+    CheckInfo, CheckKind, ContainerPackHeader, PackHeader, PackHeaderInfo, PackLocator,
+};
 use crate::creator::Result;
 use std::io::{self, Read, Seek, SeekFrom, Write};
 
@@ -65,7 +67,8 @@ impl<F: PackRecipient> ContainerPackCreator<F> {
         let check_info_pos = self.file.tell();
 
         // Write pack header
-        let pack_size = Size::from(check_info_pos + PackHeader::BLOCK_SIZE);
+        let pack_size =
+            Size::from(check_info_pos + CheckKind::None.block_size() + PackHeader::BLOCK_SIZE);
         let pack_header = PackHeader::new(
             crate::common::PackKind::Container,
             PackHeaderInfo::new(VendorId::from([0, 0, 0, 0]), pack_size, check_info_pos),
-- 
2.43.0


From a40bfab378e6d416c9bb01de93a268c1a985a693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 11/21] fix: read containers using pack id 65535

---
 src/reader/jubako.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 162075c..ae9b207 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -110,7 +110,7 @@ impl Container {
         let value_storage = directory_pack.create_value_storage();
         let entry_storage = directory_pack.create_entry_storage();
         let mut packs = Vec::new();
-        packs.resize_with((manifest_pack.max_id() + 1) as usize, Default::default);
+        packs.resize_with(manifest_pack.max_id() as usize + 1, Default::default);
         Ok(Self {
             manifest_pack,
             locator,
-- 
2.43.0


From 2e4d56d5e8a68ece6ef3238f1dd96de2b548b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 12/21] fix: open containers embedded at the end of another
 file

---
 src/reader/jubako.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index ae9b207..a07ca14 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -38,10 +38,15 @@ pub struct Container {
 pub fn open_as_container_pack(reader: Reader) -> Result<ContainerPack> {
     // Check at beginning
     // First try to check without Check as we want a nice message to the user if version has changed.
-    reader.parse_block_unchecked_at::<PackHeader>(Offset::zero())?;
-    let (pack_header, offset) = match reader.parse_block_at::<PackHeader>(Offset::zero()) {
+    let header_at_start = reader
+        .parse_block_unchecked_at::<PackHeader>(Offset::zero())
+        .and_then(|_| reader.parse_block_at::<PackHeader>(Offset::zero()));
+    let (pack_header, offset) = match header_at_start {
         Ok(pack_header) => (pack_header, Offset::zero()),
-        Err(_) => {
+        Err(e) => {
+            if let ErrorKind::Version(_) = *e {
+                return Err(e);
+            }
             //Check at end
             let mut buffer_reader = [0u8; 64];
             reader
@@ -49,7 +54,11 @@ pub fn open_as_container_pack(reader: Reader) -> Result<ContainerPack> {
                 .read_exact(&mut buffer_reader)?;
             buffer_reader.reverse();
             let end_reader: Reader = buffer_reader.into();
-            let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero())?;
+            let pack_header = match end_reader.parse_block_at::<PackHeader>(Offset::zero()) {
+                Ok(pack_header) => pack_header,
+                // What is at the beginning is more meaningful
+                Err(_) => return Err(e),
+            };
             let origin = reader.size() - pack_header.file_size;
             (pack_header, origin.into())
         }
-- 
2.43.0


From 52054436a5f92ef7dfdb262b46911deb1ed89c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 13/21] fix: find the manifest header when rewriting a pack
 location

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 8f3f9d0..958b072 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -52,7 +52,7 @@ pub fn set_location(
     let manifest_pack_reader = manifest_pack_reader.unwrap();
     let pack_header = manifest_pack_reader.parse_block_at::<PackHeader>(jbk::Offset::zero())?;
     let header = manifest_pack_reader
-        .parse_block_at::<ManifestPackHeader>(jbk::Offset::from(PackHeader::SIZE))?;
+        .parse_block_at::<ManifestPackHeader>(jbk::Offset::from(PackHeader::BLOCK_SIZE))?;
     let pack_offsets = PackOffsetsIter::new(pack_header.check_info_pos, header.pack_count);
     for pack_offset in pack_offsets {
         let mut pack_info =
-- 
2.43.0


From ee01f5408c76985c6e3b3a869b44087056e16465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 14/21] fix: refuse pack locations which don't fit in the pack
 info

---
 src/bin/jbk/locate.rs | 4 ++--
 src/tools.rs          | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bin/jbk/locate.rs b/src/bin/jbk/locate.rs
index 5a4907a..6b5f8a3 100644
--- a/src/bin/jbk/locate.rs
+++ b/src/bin/jbk/locate.rs
@@ -29,8 +29,8 @@ pub fn run(options: Options) -> jbk::Result<()> {
         },
     };
     if let Some(location) = &options.new_location {
-        if location.len() > 217 {
-            eprintln!("{location} is too long. Only 217 bytes allowed");
+        if location.len() > 213 {
+            eprintln!("{location} is too long. Only 213 bytes allowed");
             return Ok(());
         }
 
diff --git a/src/tools.rs b/src/tools.rs
index 958b072..0fc50cd 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -61,6 +61,12 @@ pub fn set_location(
             continue;
         }
 
+        if new_location.as_str().len() > 213 {
+            return Err(format_error!(
+                "A pack location cannot be longer than 213 bytes"
+            ));
+        }
+
         let old_location = pack_info.pack_location.to_owned();
 
         let global_pack_offset =
-- 
2.43.0


From c1e25314c07be7437cbccf1e95c506e09530f179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 15/21] verif: hooks giving access to Reader and RandomParser
 (cfg jubako_verif)

---
 src/lib.rs   |   6 +++
 src/verif.rs | 103 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 109 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 49317d2..e315094 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,8 @@
 #![cfg_attr(feature = "nightly", feature(error_generic_member_access))]
 #![cfg_attr(feature = "nightly", feature(seek_stream_len))]
 
+#![allow(unexpected_cfgs)] // jubako_verif
+
 #[macro_use]
 mod bases;
 mod common;
@@ -11,6 +13,10 @@ pub mod tools;
 #[cfg(feature = "clap")]
 pub mod cmd_utils;
 
+// Hooks of an external verification harness, enabled with RUSTFLAGS="--cfg jubako_verif"
+#[cfg(jubako_verif)]
+pub mod verif;
+
 #[doc(hidden)]
 pub use const_format::concatcp;
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..ef3c0e2
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,103 @@
+//! Access to internals for a verification harness, only compiled with `--cfg jubako_verif`.
+use crate::bases::{ByteSize, Offset, Parser, RandomParser, Reader, Result, Size};
+use crate::reader::{ByteSlice, ByteStream};
+use std::borrow::Cow;
+
+pub fn reader_size(reader: &Reader) -> Size {
+    reader.size()
+}
+
+pub fn reader_cut(reader: &Reader, offset: Offset, size: Size, in_memory: bool) -> Result<Reader> {
+    reader.cut(offset, size, in_memory)
+}
+
+pub fn reader_stream(
+    reader: &Reader,
+    offset: Offset,
+    size: Size,
+    in_memory: bool,
+) -> Result<ByteStream> {
+    reader.create_stream(offset, size, in_memory)
+}
+
+pub fn reader_byte_slice(reader: &Reader, offset: Offset, size: Size) -> ByteSlice<'_> {
+    reader.get_byte_slice(offset, size)
+}
+
+#[allow(private_bounds)]
+pub fn rp_global_offset<T: RandomParser>(parser: &T) -> u64 {
+    parser.global_offset().into_u64()
+}
+
+#[allow(private_bounds)]
+pub fn rp_read_slice<T: RandomParser>(
+    parser: &T,
+    offset: Offset,
+    size: usize,
+) -> Result<Cow<'_, [u8]>> {
+    parser.read_slice(offset, size)
+}
+
+#[allow(private_bounds)]
+pub fn rp_read_data<T: RandomParser>(
+    parser: &T,
+    offset: Offset,
+    buf: &mut [u8],
+) -> std::io::Result<()> {
+    parser.read_data(offset, buf)
+}
+
+/// Reads an integer as (unsigned, signed).
+/// `how` < 8: sized integer of `how` + 1 bytes, otherwise the method of that width.
+#[allow(private_bounds)]
+pub fn rp_read_int<T: RandomParser>(parser: &T, offset: Offset, how: u8) -> Result<(u64, i64)> {
+    if how < 8 {
+        let size = ByteSize::try_from(how as usize + 1).unwrap();
+        return Ok((
+            parser.read_usized(offset, size)?,
+            parser.read_isized(offset, size)?,
+        ));
+    }
+    Ok(match how % 4 {
+        0 => (
+            parser.read_u8(offset)?.into(),
+            parser.read_i8(offset)?.into(),
+        ),
+        1 => (
+            parser.read_u16(offset)?.into(),
+            parser.read_i16(offset)?.into(),
+        ),
+        2 => (
+            parser.read_u32(offset)?.into(),
+            parser.read_i32(offset)?.into(),
+        ),
+        _ => (parser.read_u64(offset)?, parser.read_i64(offset)?),
+    })
+}
+
+/// Creates a parser at offset, reads (or skips, one time out of three) slices of these sizes.
+/// Also returns the final global offset.
+#[allow(private_bounds)]
+pub fn rp_parser<T: RandomParser>(
+    parser: &T,
+    offset: Offset,
+    sizes: &[usize],
+) -> Result<(Vec<Option<Vec<u8>>>, u64)> {
+    let mut p = parser.create_parser(offset)?;
+    let mut all = vec![];
+    for (n, size) in sizes.iter().enumerate() {
+        all.push(match n % 3 {
+            0 => Some(p.read_slice(*size)?.to_vec()),
+            1 => {
+                let mut buf = vec![0; *size];
+                p.read_data(&mut buf)?;
+                Some(buf)
+            }
+            _ => {
+                p.skip(*size)?;
+                None
+            }
+        });
+    }
+    Ok((all, p.global_offset().into_u64()))
+}
-- 
2.43.0


From 7bcb044285418f767f57a2b6a9c87ba36a916a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 16/21] fix: start the stream converted from a region at the
 beginning of the region

---
 src/reader/byte_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/byte_stream.rs b/src/reader/byte_stream.rs
index 893d781..28364d7 100644
--- a/src/reader/byte_stream.rs
+++ b/src/reader/byte_stream.rs
@@ -58,6 +58,7 @@ impl Read for ByteStream {
 
 impl From<ByteRegion> for ByteStream {
     fn from(bregion: ByteRegion) -> Self {
-        Self::new_from_parts(bregion.source, bregion.region, Offset::zero())
+        let offset = bregion.region.begin();
+        Self::new_from_parts(bregion.source, bregion.region, offset)
     }
 }
-- 
2.43.0


From f94db6d23c1c0cb5852031e530dc6d04f6a33cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 17/21] fix: fail when reading out of the file instead of
 panicking or faulting

---
 src/bases/reader.rs      |  5 +++++
 src/bases/types/range.rs | 13 +++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/bases/reader.rs b/src/bases/reader.rs
index 02cc252..26391d5 100644
--- a/src/bases/reader.rs
+++ b/src/bases/reader.rs
@@ -98,6 +98,9 @@ impl Reader {
         block_check: BlockCheck,
         in_memory: bool,
     ) -> Result<(Arc<dyn Source>, Region)> {
+        // The check bytes (not part of the region) must also be there.
+        self.region
+            .try_cut_rel(offset, size + Size::from(block_check.size()))?;
         let region = self.region.cut_rel(offset, size);
         Arc::clone(&self.source).cut(region, block_check, in_memory)
     }
@@ -161,6 +164,7 @@ impl CheckReader {
     }
 
     pub(crate) fn create_parser(&self, offset: Offset, size: ASize) -> Result<impl Parser + '_> {
+        self.region.try_cut_rel(offset, size.into())?;
         let region = self.region.cut_rel_asize(offset, size);
         let slice = self.source.get_slice(region, BlockCheck::None)?;
         Ok(SliceParser::new(slice, self.region.begin() + offset))
@@ -176,6 +180,7 @@ impl CheckReader {
         T::parse(&mut parser)
     }
     pub fn get_slice(&self, offset: Offset, size: ASize) -> Result<Cow<[u8]>> {
+        self.region.try_cut_rel(offset, size.into())?;
         let region = self.region.cut_rel_asize(offset, size);
         self.source.get_slice(region, BlockCheck::None)
     }
diff --git a/src/bases/types/range.rs b/src/bases/types/range.rs
index d8b6cb2..c576266 100644
--- a/src/bases/types/range.rs
+++ b/src/bases/types/range.rs
@@ -71,6 +71,19 @@ impl Region {
         );
         ARegion::new(begin, end)
     }
+
+    /// Same as `cut_rel` but fails if the cut is not in the region.
+    /// To use when offset and size come from the data (which may be damaged or truncated).
+    #[inline]
+    pub(crate) fn try_cut_rel(&self, offset: Offset, size: Size) -> crate::bases::Result<Self> {
+        let region_size = self.size().into_u64();
+        match offset.into_u64().checked_add(size.into_u64()) {
+            Some(end) if end <= region_size => Ok(self.cut_rel(offset, size)),
+            _ => Err(format_error!(format!(
+                "Out of region. {size} bytes at {offset} > {region_size}"
+            ))),
+        }
+    }
 }
 
 #[derive(Debug, Clone, Copy)]
-- 
2.43.0


From d8cd6578d8b7abe0e62713cd427221569b3f3e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 18/21] fix: fail to open files too small for the pack header
 or for the size it declares

---
 src/reader/jubako.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index a07ca14..6317d27 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -49,6 +49,10 @@ pub fn open_as_container_pack(reader: Reader) -> Result<ContainerPack> {
             }
             //Check at end
             let mut buffer_reader = [0u8; 64];
+            if reader.size() < Size::new(64) {
+                // There is no room for a header (nor a mirrored one)
+                return Err(e);
+            }
             reader
                 .create_stream((reader.size() - Size::new(64)).into(), Size::new(64), false)?
                 .read_exact(&mut buffer_reader)?;
@@ -59,6 +63,13 @@ pub fn open_as_container_pack(reader: Reader) -> Result<ContainerPack> {
                 // What is at the beginning is more meaningful
                 Err(_) => return Err(e),
             };
+            if pack_header.file_size > reader.size() {
+                return Err(format_error!(format!(
+                    "Pack size ({}) is bigger than the size of the file ({})",
+                    pack_header.file_size,
+                    reader.size()
+                )));
+            }
             let origin = reader.size() - pack_header.file_size;
             (pack_header, origin.into())
         }
-- 
2.43.0


From 5f483011bb3547778abff4217b579232ffb06008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 19/21] fix: report to the readers that the decompression has
 failed

---
 src/bases/io/compression.rs | 66 ++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/src/bases/io/compression.rs b/src/bases/io/compression.rs
index 41314b5..dcb0baa 100644
--- a/src/bases/io/compression.rs
+++ b/src/bases/io/compression.rs
@@ -1,4 +1,5 @@
 use crate::bases::*;
+use log::warn;
 use std::borrow::Cow;
 use std::io::Read;
 use std::mem::ManuallyDrop;
@@ -27,20 +28,38 @@ Individual elements of the vec don't have to be deallocated as they are u8.
 
 static DECOMPRESSION_POOL: OnceLock<rayon::ThreadPool> = OnceLock::new();
 
+/// What is shared between the writer and the readers
+#[derive(Default)]
+struct Progress {
+    /// The number of bytes already decoded
+    decoded: usize,
+    /// The writer is gone, no more bytes will be decoded
+    ended: bool,
+}
+
 struct SyncVecWr {
     _arc: Arc<Vec<u8>>,
     data: ManuallyDrop<Vec<u8>>,
     total_size: usize,
-    decoded: Arc<(Mutex<usize>, Condvar)>,
+    decoded: Arc<(Mutex<Progress>, Condvar)>,
 }
 
 unsafe impl Send for SyncVecWr {}
 
+impl Drop for SyncVecWr {
+    fn drop(&mut self) {
+        // If decoding has failed, readers must not wait for bytes which will never come.
+        let (lock, cvar) = &*self.decoded;
+        lock.lock().unwrap().ended = true;
+        cvar.notify_all();
+    }
+}
+
 struct SyncVecRd {
     _arc: Arc<Vec<u8>>,
     buffer: *const u8,
     total_size: usize,
-    decoded: Arc<(Mutex<usize>, Condvar)>,
+    decoded: Arc<(Mutex<Progress>, Condvar)>,
 }
 
 unsafe impl Send for SyncVecRd {}
@@ -50,17 +69,17 @@ impl SyncVecRd {
     #[inline]
     pub fn wait_while<F>(&self, function: F) -> usize
     where
-        F: Fn(&mut usize) -> bool,
+        F: Fn(&mut Progress) -> bool,
     {
         let (lock, cvar) = &*self.decoded;
-        let decoded = cvar.wait_while(lock.lock().unwrap(), function).unwrap();
-        *decoded
+        let progress = cvar.wait_while(lock.lock().unwrap(), function).unwrap();
+        progress.decoded
     }
 
     #[inline]
     pub fn current_size(&self) -> usize {
         let (lock, _cvar) = &*self.decoded;
-        *lock.lock().unwrap()
+        lock.lock().unwrap().decoded
     }
 
     #[inline]
@@ -77,7 +96,7 @@ impl SyncVecRd {
 
 fn create_sync_vec(size: usize) -> (SyncVecWr, SyncVecRd) {
     let buffer = Arc::new(Vec::with_capacity(size));
-    let decoded = Arc::new((Mutex::new(0), Condvar::new()));
+    let decoded = Arc::new((Mutex::new(Progress::default()), Condvar::new()));
     let buffer_ptr = buffer.as_ptr();
     let rd = SyncVecRd {
         _arc: Arc::clone(&buffer),
@@ -113,13 +132,16 @@ fn decode_to_end<T: Read + Send>(
         let size = std::cmp::min(total_size - uncompressed, chunk_size);
         //  println!("decompress {size}");
 
-        uncompressed += decoder
+        let read = decoder
             .by_ref()
             .take(size as u64)
             .read_to_end(&mut buffer.data)?;
+        if read == 0 {
+            return Err(std::io::ErrorKind::UnexpectedEof.into());
+        }
+        uncompressed += read;
         let (lock, cvar) = &*buffer.decoded;
-        let mut decoded = lock.lock().unwrap();
-        *decoded = uncompressed;
+        lock.lock().unwrap().decoded = uncompressed;
         cvar.notify_all();
     }
     //println!("Decompress done");
@@ -139,14 +161,26 @@ impl SeekableDecoder {
                     .unwrap()
             })
             .spawn(move || {
-                decode_to_end(decoder, write_hand, 4 * 1024).unwrap();
+                if let Err(e) = decode_to_end(decoder, write_hand, 4 * 1024) {
+                    // Readers are informed that decoding is over and will return an error.
+                    warn!("Cannot decompress data: {e}");
+                }
             });
         Self { buffer: read_hand }
     }
 
     #[inline]
-    pub fn decode_to(&self, end: usize) {
-        self.buffer.wait_while(|d: &mut usize| *d < end);
+    pub fn decode_to(&self, end: usize) -> std::io::Result<()> {
+        let decoded = self
+            .buffer
+            .wait_while(|p: &mut Progress| p.decoded < end && !p.ended);
+        if decoded < end {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "Cannot decompress data",
+            ));
+        }
+        Ok(())
     }
 
     #[inline]
@@ -164,7 +198,7 @@ impl Source for SeekableDecoder {
             offset.force_into_usize() + buf.len(),
             self.buffer.total_size(),
         );
-        self.decode_to(end);
+        self.decode_to(end)?;
         let mut slice = &self.decoded_slice()[offset.force_into_usize()..];
         Read::read(&mut slice, buf)
     }
@@ -177,7 +211,7 @@ impl Source for SeekableDecoder {
                 "Out of slice",
             ));
         }
-        self.decode_to(end);
+        self.decode_to(end)?;
         let slice = self.decoded_slice();
         assert!(end <= slice.len());
         buf.copy_from_slice(&self.decoded_slice()[o..end]);
@@ -195,7 +229,7 @@ impl Source for SeekableDecoder {
                 self.size()
             )));
         }
-        self.decode_to(region.end().force_into_usize());
+        self.decode_to(region.end().force_into_usize())?;
         Ok(Cow::Borrowed(
             &self.decoded_slice()
                 [region.begin().force_into_usize()..region.end().force_into_usize()],
-- 
2.43.0


From 249fe4dd44f3988f83eeb72de88955e95be359a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 20/21] fix: fail to open a container without directory pack
 instead of panicking

---
 src/reader/jubako.rs        | 7 ++++++-
 src/reader/manifest_pack.rs | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 6317d27..b2c9306 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -125,7 +125,12 @@ impl Container {
         let directory_pack = Arc::new(DirectoryPack::new(
             locator
                 .locate(pack_info.uuid, &pack_info.pack_location)?
-                .unwrap(),
+                .ok_or_else(|| {
+                    Error::from(FormatError::new(
+                        "Impossible to locate the directory pack",
+                        None,
+                    ))
+                })?,
         )?);
         let value_storage = directory_pack.create_value_storage();
         let entry_storage = directory_pack.create_entry_storage();
diff --git a/src/reader/manifest_pack.rs b/src/reader/manifest_pack.rs
index 6f7737e..57981c4 100644
--- a/src/reader/manifest_pack.rs
+++ b/src/reader/manifest_pack.rs
@@ -71,6 +71,10 @@ impl ManifestPack {
                 }
             }
         }
+        let directory_pack_info = match directory_pack_info {
+            Some(pack_info) => pack_info,
+            None => return Err(format_error!("Manifest has no directory pack")),
+        };
         let vs_posinfo = header.value_store_posinfo;
         let value_store = if !vs_posinfo.is_zero() {
             Some(reader.parse_data_block::<ValueStore>(vs_posinfo)?)
@@ -81,7 +85,7 @@ impl ManifestPack {
             pack_header,
             header,
             reader,
-            directory_pack_info: directory_pack_info.unwrap(),
+            directory_pack_info,
             pack_infos,
             check_info: OnceLock::new(),
             value_store,
-- 
2.43.0


From 7fb2ed95ff1146db88e607583a7b9f9487d35b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 21/21] verif: schedule points in the reader (cfg jubako_verif)

---
 src/bases/cache.rs                 |  1 +
 src/bases/io/compression.rs        |  6 +++++
 src/bases/io/file.rs               |  2 ++
 src/lib.rs                         | 12 ++++++++++
 src/reader/content_pack/cluster.rs |  2 ++
 src/reader/content_pack/mod.rs     |  2 ++
 src/reader/jubako.rs               |  1 +
 src/verif.rs                       | 36 ++++++++++++++++++++++++++++++
 8 files changed, 62 insertions(+)

diff --git a/src/bases/cache.rs b/src/bases/cache.rs
index 67fb888..a8e241e 100644
--- a/src/bases/cache.rs
+++ b/src/bases/cache.rs
@@ -29,6 +29,7 @@ where
         let cache_slot = &self.values[index.into()];
         if cache_slot.get().is_none() {
             let new_value = self.source.get_value(index)?;
+            verif_point!(CacheSet, self as *const _ as usize, Into::<usize>::into(index));
             let _ = cache_slot.set(new_value);
         }
 
diff --git a/src/bases/io/compression.rs b/src/bases/io/compression.rs
index dcb0baa..a10a7ba 100644
--- a/src/bases/io/compression.rs
+++ b/src/bases/io/compression.rs
@@ -52,6 +52,7 @@ impl Drop for SyncVecWr {
         let (lock, cvar) = &*self.decoded;
         lock.lock().unwrap().ended = true;
         cvar.notify_all();
+        verif_point!(Ended, self.data.as_ptr() as usize, self.data.len());
     }
 }
 
@@ -131,6 +132,7 @@ fn decode_to_end<T: Read + Send>(
     while uncompressed < total_size {
         let size = std::cmp::min(total_size - uncompressed, chunk_size);
         //  println!("decompress {size}");
+        verif_point!(Decode, buffer.data.as_ptr() as usize, uncompressed);
 
         let read = decoder
             .by_ref()
@@ -140,9 +142,11 @@ fn decode_to_end<T: Read + Send>(
             return Err(std::io::ErrorKind::UnexpectedEof.into());
         }
         uncompressed += read;
+        verif_point!(Decoded, buffer.data.as_ptr() as usize, uncompressed);
         let (lock, cvar) = &*buffer.decoded;
         lock.lock().unwrap().decoded = uncompressed;
         cvar.notify_all();
+        verif_point!(Published, buffer.data.as_ptr() as usize, uncompressed);
     }
     //println!("Decompress done");
     Ok(())
@@ -171,9 +175,11 @@ impl SeekableDecoder {
 
     #[inline]
     pub fn decode_to(&self, end: usize) -> std::io::Result<()> {
+        verif_point!(Wait, self.buffer.buffer as usize, end);
         let decoded = self
             .buffer
             .wait_while(|p: &mut Progress| p.decoded < end && !p.ended);
+        verif_point!(Waited, self.buffer.buffer as usize, end);
         if decoded < end {
             return Err(std::io::Error::new(
                 std::io::ErrorKind::InvalidData,
diff --git a/src/bases/io/file.rs b/src/bases/io/file.rs
index 3a560f9..f3f6f86 100644
--- a/src/bases/io/file.rs
+++ b/src/bases/io/file.rs
@@ -69,6 +69,7 @@ impl Source for FileSource {
         let mut f = self.lock().unwrap();
         // TODO: Use `read_at`/`seek_read`
         f.seek(SeekFrom::Start(offset.into_u64()))?;
+        verif_point!(FileRead, self as *const _ as usize, offset.into_u64());
         f.read(buf)
     }
 
@@ -76,6 +77,7 @@ impl Source for FileSource {
         let mut f = self.lock().unwrap();
         // TODO: Use `read_at`/`seek_read`
         f.seek(SeekFrom::Start(offset.into_u64()))?;
+        verif_point!(FileRead, self as *const _ as usize, offset.into_u64());
         f.read_exact(buf)
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index e315094..bb6fd00 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,6 +3,18 @@
 
 #![allow(unexpected_cfgs)] // jubako_verif
 
+/// A schedule point of the verification harness, nothing without `--cfg jubako_verif`
+#[cfg(jubako_verif)]
+macro_rules! verif_point {
+    ($point:ident, $who:expr, $value:expr) => {
+        crate::verif::point(crate::verif::Point::$point, $who, $value as u64)
+    };
+}
+#[cfg(not(jubako_verif))]
+macro_rules! verif_point {
+    ($point:ident, $who:expr, $value:expr) => {};
+}
+
 #[macro_use]
 mod bases;
 mod common;
diff --git a/src/reader/content_pack/cluster.rs b/src/reader/content_pack/cluster.rs
index b96ff26..04a30d8 100644
--- a/src/reader/content_pack/cluster.rs
+++ b/src/reader/content_pack/cluster.rs
@@ -74,6 +74,7 @@ fn zstd_source(_raw_stream: ByteStream, _data_size: ASize) -> Result<Arc<dyn Sou
 
 impl Cluster {
     fn build_plain_reader(&self) -> Result<()> {
+        verif_point!(Plain, self as *const _ as usize, 0);
         let mut cluster_reader = self.reader.write().unwrap();
         if let ClusterReader::Plain(_) = *cluster_reader {
             return Ok(());
@@ -110,6 +111,7 @@ impl Cluster {
 
     pub fn get_bytes(&self, index: BlobIdx) -> Result<ByteRegion> {
         self.build_plain_reader()?;
+        verif_point!(PlainDone, self as *const _ as usize, 0);
         let offset = self.blob_offsets[index.into_usize()];
         let end_offset = self.blob_offsets[index.into_usize() + 1];
         let size = end_offset - offset;
diff --git a/src/reader/content_pack/mod.rs b/src/reader/content_pack/mod.rs
index 6492f34..144a6b3 100644
--- a/src/reader/content_pack/mod.rs
+++ b/src/reader/content_pack/mod.rs
@@ -65,7 +65,9 @@ impl ContentPack {
     }
 
     fn get_cluster(&self, cluster_index: ClusterIdx) -> Result<Arc<Cluster>> {
+        verif_point!(Cluster, self as *const _ as usize, cluster_index.into_u32());
         let mut cache = self.cluster_cache.lock().unwrap();
+        verif_point!(ClusterLocked, self as *const _ as usize, cluster_index.into_u32());
         let cached = cache.try_get_or_insert(cluster_index, || self._get_cluster(cluster_index))?;
         Ok(cached.clone())
     }
diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index b2c9306..2b7d980 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -170,6 +170,7 @@ impl Container {
                     return Ok(Some(MayMissPack::MISSING(pack_info)))
                 }
                 Some(MayMissPack::FOUND(p)) => {
+                    verif_point!(PackSet, self as *const _ as usize, pack_id.into_u16());
                     let _ = cache_slot.set(p);
                 }
             }
diff --git a/src/verif.rs b/src/verif.rs
index ef3c0e2..3624d3f 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -101,3 +101,39 @@ pub fn rp_parser<T: RandomParser>(
     }
     Ok((all, p.global_offset().into_u64()))
 }
+
+/// A place in the code where the schedule matters, with the object concerned and a value.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Point {
+    /// a chunk is going to be decoded, after that many bytes
+    Decode,
+    /// that many bytes are decoded, not yet published
+    Decoded,
+    Published,
+    /// the decoding thread is done with the buffer
+    Ended,
+    /// a reader is going to wait for that many bytes
+    Wait,
+    Waited,
+    Cluster,
+    ClusterLocked,
+    Plain,
+    PlainDone,
+    PackSet,
+    CacheSet,
+    FileRead,
+}
+
+pub type Hook = fn(Point, usize, u64);
+static HOOK: std::sync::OnceLock<Hook> = std::sync::OnceLock::new();
+
+/// `hook` is called at each `Point`. It may only be set once.
+pub fn set_hook(hook: Hook) {
+    let _ = HOOK.set(hook);
+}
+
+pub(crate) fn point(point: Point, who: usize, value: u64) {
+    if let Some(hook) = HOOK.get() {
+        hook(point, who, value)
+    }
+}
-- 
2.43.0

