From 9b0b9101cac98f77c1ded02dd8c3c00bd69bfcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 01/18] fix: add_partition_at must keep the whole segment
 inside the free section

Only the start and the length were compared with the free section, so a
segment starting inside of it could run over its end, into the next
partition or past the last usable lba.
---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0ca48a1..c5bb128 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -603,8 +603,10 @@ where
         }
 
         for (starting_lba, length) in self.find_free_sectors() {
-            if !(first_lba >= starting_lba && length_lba <= length) {
-                continue;
+            // the whole segment needs to be inside of the free section
+            match first_lba.checked_sub(starting_lba) {
+                Some(offset) if offset < length && length_lba <= length - offset => {}
+                _ => continue,
             }
 
             // part segment is legal
-- 
2.43.0


From d2e1206e52ecf99b1ba4f75e07104d23fb5a0f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:59 +0000
Subject: [PATCH 02/18] fix: write the guid set by update_guid

update_guid only changed the guid of the disk object, the headers kept
the old one and write() persisted that.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index c5bb128..9ab8a14 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -876,6 +876,7 @@ where
         trace!("old backup lba: {}", bak);
 
         let primary_header = header::HeaderBuilder::from_header(self.header())
+            .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
         let primary_header = self.primary_header.insert_ok(primary_header);
-- 
2.43.0


From 27ad53c0651e07670672bf783d08f95589c608bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 03/18] fix: compute the size of the partition array without
 overflow

num_parts * part_size was multiplied as u32, which panics or wraps to a
too small array. Also place the array after the actual primary lba.
---
 src/header/builder.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index d56b9a8..a08e545 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -132,12 +132,14 @@ impl HeaderBuilder {
             (self.backup_lba, self.primary_lba)
         };
 
-        let part_array_size = self.num_parts * self.part_size;
-        let part_array_lbs = u64_div_ceil(part_array_size as u64, lb_size.as_u64());
+        let part_array_size = u64::from(self.num_parts) * u64::from(self.part_size);
+        let part_array_lbs = u64_div_ceil(part_array_size, lb_size.as_u64());
 
         let first_usable = self.first_usable.max(
-            // mbr, header, part_array
-            1 + 1 + part_array_lbs,
+            // everything up to the header, header, part_array
+            self.primary_lba
+                .checked_add(1 + part_array_lbs)
+                .ok_or(HeaderError::BackupLbaToEarly)?,
         );
 
         let last_usable = self.last_usable.max(
-- 
2.43.0


From a54bf385e5c9f63a1a4a9e2c251cba2dca06c597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 04/18] fix: keep the backup partition array off the backup
 header

last_usable was only ever increased, so growing the partition array (or
a too large value given to the builder) made the backup array reach into
the backup header, which corrupted the backup, and a smaller value given
to the builder was ignored.
---
 src/header/builder.rs | 18 +++++++++++-------
 src/lib.rs            |  7 ++++++-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index a08e545..62d08be 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -142,12 +142,15 @@ impl HeaderBuilder {
                 .ok_or(HeaderError::BackupLbaToEarly)?,
         );
 
-        let last_usable = self.last_usable.max(
-            // last is inclusive: end of disk is (partition array) (backup header)
-            self.backup_lba
-                .checked_sub(part_array_lbs + 1)
-                .ok_or(HeaderError::BackupLbaToEarly)?,
-        );
+        // last is inclusive: end of disk is (partition array) (backup header)
+        let max_last_usable = self
+            .backup_lba
+            .checked_sub(part_array_lbs + 1)
+            .ok_or(HeaderError::BackupLbaToEarly)?;
+        let last_usable = match self.last_usable {
+            0 => max_last_usable,
+            last_usable => last_usable.min(max_last_usable),
+        };
 
         if first_usable > last_usable {
             return Err(HeaderError::BackupLbaToEarly);
@@ -156,7 +159,8 @@ impl HeaderBuilder {
         let part_start = if self.primary {
             self.primary_lba + 1
         } else {
-            last_usable + 1
+            // directly in front of the backup header
+            max_last_usable + 1
         };
 
         Ok(Header {
diff --git a/src/lib.rs b/src/lib.rs
index 9ab8a14..84f0f49 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -819,7 +819,12 @@ where
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
         let num_parts = self.partitions.len() as u32;
 
-        let h1 = header::HeaderBuilder::from_maybe_header(self.try_header())
+        let mut builder = header::HeaderBuilder::from_maybe_header(self.try_header());
+        if !matches!(self.try_header(), Ok(h) if h.current_lba.max(h.backup_lba) == bak) {
+            // the backup header moves, so the end of the usable area moves too
+            builder.last_usable(0);
+        }
+        let h1 = builder
             .num_parts(num_parts)
             .backup_lba(bak)
             .disk_guid(self.guid)
-- 
2.43.0


From 217a2510ac709ad4f187cd1723af81e2424836f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 05/18] fix: return an error for an unsupported partition entry
 size

A valid header with an entry size other than 128 made opening the disk
panic.
---
 src/partition.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/partition.rs b/src/partition.rs
index e8df308..ec55c0b 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -258,7 +258,12 @@ pub fn file_read_partitions<D: Read + Seek>(
     let mut parts: BTreeMap<u32, Partition> = BTreeMap::new();
 
     // todo how should we deal with unuals part_sizes?
-    assert_eq!(header.part_size, 128);
+    if header.part_size != 128 {
+        return Err(Error::new(
+            ErrorKind::Other,
+            "unsupported partition entry size (must be 128)",
+        ));
+    }
 
     trace!("scanning {} partitions", header.num_parts);
     let mut empty_parts = 0;
-- 
2.43.0


From 9043858e790ba36dbb2010f88095230b0a28cdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:57 +0000
Subject: [PATCH 06/18] fix: do not read a header from the wrong place if
 seeking fails

The result of the seek was ignored, so after a failed seek whatever is
at the current position was taken as the header.
---
 src/header/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/mod.rs b/src/header/mod.rs
index 222478c..7346d68 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -322,7 +322,7 @@ pub(crate) fn file_read_header<D: Read + Seek>(
     file: &mut D,
     offset: u64,
 ) -> Result<Header, HeaderError> {
-    let _ = file.seek(SeekFrom::Start(offset));
+    file.seek(SeekFrom::Start(offset))?;
 
     let mut bytes = BytesArray::from([0u8; 92]);
     file.read_exact(bytes.as_mut())?;
-- 
2.43.0


From c9d94484e6c7b6b07d4c96c5f30d469309c8a692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:01 +0000
Subject: [PATCH 07/18] fix: check the entry offset for overflow when writing
 entries

Adding the entry offset to the start of the array could panic, or wrap
and write to the wrong place.
---
 src/partition.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/partition.rs b/src/partition.rs
index ec55c0b..594e172 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -125,9 +125,10 @@ impl Partition {
         // The offset is bytes_per_partition * partition_index
         let offset = partition_index
             .checked_mul(u64::from(bytes_per_partition))
+            .and_then(|offset| pstart.checked_add(offset))
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
-        trace!("seeking to partition start: {}", pstart + offset);
-        device.seek(SeekFrom::Start(pstart + offset))?;
+        trace!("seeking to partition start: {}", offset);
+        device.seek(SeekFrom::Start(offset))?;
         trace!("writing {:?}", &self.as_bytes(bytes_per_partition));
         device.write_all(&self.as_bytes(bytes_per_partition)?)?;
 
@@ -155,9 +156,10 @@ impl Partition {
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow - start offset"))?;
         let offset = starting_partition_index
             .checked_mul(u64::from(bytes_per_partition))
+            .and_then(|offset| pstart.checked_add(offset))
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
-        trace!("seeking to starting partition start: {}", pstart + offset);
-        device.seek(SeekFrom::Start(pstart + offset))?;
+        trace!("seeking to starting partition start: {}", offset);
+        device.seek(SeekFrom::Start(offset))?;
         let bytes_to_zero = u64::from(bytes_per_partition)
             .checked_mul(number_entries)
             .and_then(|x| usize::try_from(x).ok())
-- 
2.43.0


From bef22e4af1aa4b6b005e25caadff2a194d192fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 08/18] fix: accept any alignment in add_partition

An alignment of 0, which calculate_alignment returns for an empty disk,
was a division by zero, and a huge one overflowed, placing the partition
outside of the free section in release builds.
---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 84f0f49..344d6a7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -519,8 +519,9 @@ where
             // We don't need to do any checked math here because we guarantee that with `(A % B)`,
             // `A` will always be between 0 and `B-1`.
             let alignment_offset_lba = match part_alignment {
+                // an alignment of 0, as returned by `calculate_alignment`, is no alignment
+                Some(0) | None => 0_u64,
                 Some(alignment) => (alignment - (starting_lba % alignment)) % alignment,
-                None => 0_u64,
             };
 
             debug!(
@@ -528,7 +529,8 @@ where
                 starting_lba, length, alignment_offset_lba
             );
 
-            if length >= (alignment_offset_lba + size_lba) {
+            if matches!(alignment_offset_lba.checked_add(size_lba), Some(needed) if needed <= length)
+            {
                 let starting_lba = starting_lba + alignment_offset_lba;
                 // Found our free slice.
                 let partition_id = self
-- 
2.43.0


From 2d9aa8034bdb4087e08045c44e3ab80f7e74bbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 09/18] fix: report the free sectors correctly for any
 partition table

The boundaries of all partitions were sorted and paired up, which
reports used sectors as free if partitions overlap or lie outside of the
usable area, and over- or underflows for extreme headers.
---
 src/lib.rs | 60 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 344d6a7..c70621b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -713,34 +713,40 @@ where
         let header = self.header();
 
         trace!("first_usable: {}", header.first_usable);
-        // a list of boundaries between partitions each point is a used lba
-        let mut disk_positions = vec![header.first_usable - 1];
-        for part in self.partitions().iter().filter(|p| p.1.is_used()) {
-            trace!(
-                "used partition: ({}, {})",
-                part.1.first_lba,
-                part.1.last_lba
-            );
-            disk_positions.push(part.1.first_lba);
-            disk_positions.push(part.1.last_lba);
-        }
-        disk_positions.push(header.last_usable + 1);
         trace!("last_usable: {}", header.last_usable);
-        disk_positions.sort_unstable();
-
-        disk_positions
-            // Walk through the LBA's in chunks of 2 (ending, starting).
-            .chunks_exact(2)
-            // Add 1 to the ending and then subtract the starting if NOT the first usable sector
-            .filter_map(|p| {
-                // free lba
-                let start = p[0] + 1;
-                let end = p[1] - 1;
-
-                #[allow(clippy::unnecessary_lazy_evaluations)]
-                (start <= end).then(|| (start, end - start + 1))
-            })
-            .collect()
+        // the used areas ordered by their start, they might overlap each other or lie
+        // outside of the usable area if the table was not created by us
+        let mut used_areas = Vec::with_capacity(self.partitions.len());
+        for part in self.partitions.values().filter(|p| p.is_used()) {
+            trace!("used partition: ({}, {})", part.first_lba, part.last_lba);
+            used_areas.push((
+                part.first_lba.min(part.last_lba),
+                part.first_lba.max(part.last_lba),
+            ));
+        }
+        used_areas.sort_unstable();
+
+        let mut free_sectors = vec![];
+        // every usable lba before this one is either used or already listed
+        let mut next_lba = header.first_usable;
+        for (first, last) in used_areas {
+            if first > header.last_usable {
+                break;
+            }
+            if first > next_lba {
+                free_sectors.push((next_lba, first - next_lba));
+            }
+            match last.checked_add(1) {
+                Some(after) => next_lba = next_lba.max(after),
+                None => return free_sectors,
+            }
+        }
+        if next_lba <= header.last_usable {
+            let length = (header.last_usable - next_lba).saturating_add(1);
+            free_sectors.push((next_lba, length));
+        }
+
+        free_sectors
     }
 
     /// Find next highest partition id.
-- 
2.43.0


From abe9b293946d2b4e78daff5c7f67b8812a01ac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 10/18] fix: update_partitions must not decrease the partition
 count

A table with more than 128 entries was silently shrunk, even if changing
the partition count is not allowed.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c70621b..3f1d76d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -825,7 +825,11 @@ where
     /// header.
     pub(crate) fn init_headers(&mut self) -> Result<(), GptError> {
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
-        let num_parts = self.partitions.len() as u32;
+        // the partition count is never decreased
+        let num_parts = self
+            .try_header()
+            .map_or(0, |h| h.num_parts)
+            .max(self.partitions.len() as u32);
 
         let mut builder = header::HeaderBuilder::from_maybe_header(self.try_header());
         if !matches!(self.try_header(), Ok(h) if h.current_lba.max(h.backup_lba) == bak) {
-- 
2.43.0


From 781e5237c556ab8306239018154e0afc57944b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 11/18] fix: do not change the partitions if an edit fails

If the headers could not be rebuilt (device error, or no room for the
bigger partition array) the partition was added, or the table replaced,
even though an error was returned.
---
 src/lib.rs | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3f1d76d..42fef91 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -318,7 +318,7 @@ impl GptConfig {
             sync_all: None,
         };
         // setup default headers
-        disk.init_headers()?;
+        disk.init_headers(0)?;
         Ok(disk)
     }
 }
@@ -419,6 +419,11 @@ impl<D> GptDisk<D> {
         &self.partitions
     }
 
+    /// The number of partition entries which will be written to disk.
+    fn num_used_partitions(&self) -> u32 {
+        self.partitions.values().filter(|p| p.is_used()).count() as u32
+    }
+
     /// Retrieve disk UUID.
     pub fn guid(&self) -> &uuid::Uuid {
         &self.guid
@@ -559,12 +564,13 @@ where
                     flags,
                     name: name.to_string(),
                 };
-                if let Some(p) = self.partitions.insert(partition_id, part.clone()) {
-                    debug!("Replacing\n{}\nwith\n{}", p, part);
-                }
                 if num_parts_changes {
                     // update headers
-                    self.init_headers()?;
+                    let num_parts = self.num_used_partitions() + 1;
+                    self.init_headers(num_parts)?;
+                }
+                if let Some(p) = self.partitions.insert(partition_id, part.clone()) {
+                    debug!("Replacing\n{}\nwith\n{}", p, part);
                 }
                 return Ok(partition_id);
             }
@@ -641,13 +647,14 @@ where
                 name: name.to_string(),
             };
 
-            if let Some(p) = self.partitions.insert(id, part.clone()) {
-                debug!("Replacing\n{}\nwith\n{}", p, part);
-            }
-
             if num_parts_changes {
                 // update headers
-                self.init_headers()?;
+                let num_parts = self.num_used_partitions() + 1;
+                self.init_headers(num_parts)?;
+            }
+
+            if let Some(p) = self.partitions.insert(id, part.clone()) {
+                debug!("Replacing\n{}\nwith\n{}", p, part);
             }
 
             return Ok(id);
@@ -816,20 +823,23 @@ where
             return Err(GptError::PartitionCountWouldChange);
         }
 
+        self.init_headers(num_parts)?;
         self.partitions = pp;
 
-        self.init_headers()
+        Ok(())
     }
 
     /// Makes sure there exists a primary header and if allowed also creates the backup
     /// header.
-    pub(crate) fn init_headers(&mut self) -> Result<(), GptError> {
+    ///
+    /// On an error the headers are not changed.
+    pub(crate) fn init_headers(&mut self, min_num_parts: u32) -> Result<(), GptError> {
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
         // the partition count is never decreased
         let num_parts = self
             .try_header()
             .map_or(0, |h| h.num_parts)
-            .max(self.partitions.len() as u32);
+            .max(min_num_parts);
 
         let mut builder = header::HeaderBuilder::from_maybe_header(self.try_header());
         if !matches!(self.try_header(), Ok(h) if h.current_lba.max(h.backup_lba) == bak) {
@@ -842,14 +852,14 @@ where
             .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
-        let header = self.primary_header.insert_ok(h1);
 
         if !self.config.readonly_backup {
-            let h2 = header::HeaderBuilder::from_header(header)
+            let h2 = header::HeaderBuilder::from_header(&h1)
                 .primary(false)
                 .build(self.config.lb_size)?;
             self.backup_header = Ok(h2);
         }
+        self.primary_header = Ok(h1);
 
         Ok(())
     }
-- 
2.43.0


From 1a3eba55fa4d8fa80e84ffa46a67059918c3543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 12/18] fix: count all partitions before adding another one

Partition ids above num_parts were not counted, so more partitions than
the partition array holds could be added. Adding another one then
replaced an existing partition, and writing failed after having already
overwritten both partition arrays.
---
 src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42fef91..c65d4b4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -551,7 +551,11 @@ where
 
                 // let's try to increase the num parts
                 // because partition_id 0 will never exist the num_parts is without + 1
-                let num_parts_changes = self.header().num_parts_would_change(partition_id);
+                // there might be ids above num_parts so we need to check the count as well
+                let num_parts = self.num_used_partitions() + 1;
+                let num_parts_changes = self
+                    .header()
+                    .num_parts_would_change(partition_id.max(num_parts));
                 if num_parts_changes && !self.config.change_partition_count {
                     return Err(GptError::PartitionCountWouldChange);
                 }
@@ -566,7 +570,6 @@ where
                 };
                 if num_parts_changes {
                     // update headers
-                    let num_parts = self.num_used_partitions() + 1;
                     self.init_headers(num_parts)?;
                 }
                 if let Some(p) = self.partitions.insert(partition_id, part.clone()) {
@@ -632,7 +635,9 @@ where
 
             // let's try to increase the num parts
             // because partition_id 0 will never exist the num_parts is without + 1
-            let num_parts_changes = self.header().num_parts_would_change(id);
+            // there might be ids above num_parts so we need to check the count as well
+            let num_parts = self.num_used_partitions() + 1;
+            let num_parts_changes = self.header().num_parts_would_change(id.max(num_parts));
 
             if num_parts_changes && !self.config.change_partition_count {
                 return Err(GptError::PartitionCountWouldChange);
@@ -649,7 +654,6 @@ where
 
             if num_parts_changes {
                 // update headers
-                let num_parts = self.num_used_partitions() + 1;
                 self.init_headers(num_parts)?;
             }
 
-- 
2.43.0


From 4f23241a3ca15b4430e4a913d875c3edfccba659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 13/18] fix: use the backup if the primary partition array is
 damaged

A damaged partition array made opening the disk fail even though the
backup was intact, only damage to the primary header was recovered from.
---
 src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c65d4b4..1d510bf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -283,7 +283,19 @@ impl GptConfig {
         };
 
         let header = h1.as_ref().or(h2.as_ref()).unwrap();
-        let table = partition::file_read_partitions(&mut device, header, self.lb_size)?;
+        let table = partition::file_read_partitions(&mut device, header, self.lb_size);
+        let (h1, table) = match (table, &h2) {
+            (Ok(table), _) => (h1, table),
+            // the primary partition array is damaged, the backup might still be intact
+            (Err(e), Ok(h2)) if h1.is_ok() && !self.only_valid_headers => {
+                match partition::file_read_partitions(&mut device, h2, self.lb_size) {
+                    Ok(table) => (Err(e.into()), table),
+                    Err(_) => return Err(e.into()),
+                }
+            }
+            (Err(e), _) => return Err(e.into()),
+        };
+        let header = h1.as_ref().or(h2.as_ref()).unwrap();
 
         let disk = GptDisk {
             config: self,
-- 
2.43.0


From 6c5e768ca8f6944694a960eda84f2d9c06780cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 14/18] fix: keep a valid copy on the device at every point of
 a write

---
 src/lib.rs | 155 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 89 insertions(+), 66 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1d510bf..deb2cdc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -922,96 +922,119 @@ where
             .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
-        let primary_header = self.primary_header.insert_ok(primary_header);
 
         let backup_header = if !self.config.readonly_backup {
-            let header = header::HeaderBuilder::from_header(primary_header)
+            let header = header::HeaderBuilder::from_header(&primary_header)
                 .primary(false)
                 .build(self.config.lb_size)?;
 
-            Some(self.backup_header.insert_ok(header))
+            Some(header)
         } else {
             None
         };
 
-        // Write all of the used partitions at the start of the partition array.
-        let mut next_partition_index = 0;
-        for (part_idx, partition) in self
-            .partitions
-            .clone()
-            .iter()
-            .filter(|p| p.1.is_used())
-            .enumerate()
-        {
-            // don't allow us to overflow partition array...
-            // todo this should not be possible since we
-            // check in add partition that it is valid
-            if part_idx >= primary_header.num_parts as usize {
-                return Err(GptError::OverflowPartitionCount);
+        // don't allow us to overflow partition array...
+        if self.num_used_partitions() > primary_header.num_parts {
+            return Err(GptError::OverflowPartitionCount);
+        }
+
+        // One copy is always written completely before the other one is touched, if we get
+        // interrupted there is still a valid copy. If only the backup on the device is
+        // valid we need to preserve it until the primary is.
+        if self.is_only_backup_intact() {
+            self.write_primary_copy(primary_header)?;
+            let end_pos = self.device.stream_position()?;
+            self.write_backup_copy(backup_header)?;
+            // the device is always left behind the primary header
+            self.device.seek(io::SeekFrom::Start(end_pos))?;
+        } else {
+            self.write_backup_copy(backup_header)?;
+            self.write_primary_copy(primary_header)?;
+        }
+
+        Ok(())
+    }
+
+    /// Checks if the device contains an intact backup but no intact primary.
+    fn is_only_backup_intact(&mut self) -> bool {
+        let lb_size = self.config.lb_size;
+        let primary = header::read_primary_header(&mut self.device, lb_size);
+        if self.is_copy_intact(primary) {
+            return false;
+        }
+
+        let backup = header::read_backup_header(&mut self.device, lb_size);
+        self.is_copy_intact(backup)
+    }
+
+    /// Checks if the header is valid and the partition array it points to matches.
+    fn is_copy_intact(&mut self, header: Result<header::Header, HeaderError>) -> bool {
+        match header {
+            Ok(header) => {
+                partition::file_read_partitions(&mut self.device, &header, self.config.lb_size)
+                    .is_ok()
             }
+            Err(_) => false,
+        }
+    }
+
+    /// Write the primary partition array and header.
+    fn write_primary_copy(&mut self, mut header: header::Header) -> Result<(), GptError> {
+        self.write_partition_array(&header)?;
+        debug!("Writing primary header");
+        header.write_primary(&mut self.device, self.config.lb_size)?;
+        self.flush_device()?;
+        self.primary_header.insert_ok(header);
+
+        Ok(())
+    }
 
-            // Write to primary partition array
-            partition.1.write_to_device(
+    /// Write the backup partition array and header, if there should be one.
+    fn write_backup_copy(&mut self, header: Option<header::Header>) -> Result<(), GptError> {
+        if let Some(mut header) = header {
+            self.write_partition_array(&header)?;
+            debug!("Writing backup header");
+            header.write_backup(&mut self.device, self.config.lb_size)?;
+            self.flush_device()?;
+            self.backup_header.insert_ok(header);
+        }
+
+        Ok(())
+    }
+
+    /// Write the partition array the header points to.
+    fn write_partition_array(&mut self, header: &header::Header) -> Result<(), GptError> {
+        // Write all of the used partitions at the start of the partition array.
+        let mut next_partition_index = 0;
+        for partition in self.partitions.values().filter(|p| p.is_used()) {
+            partition.write_to_device(
                 &mut self.device,
-                part_idx as u64,
-                primary_header.part_start,
+                next_partition_index,
+                header.part_start,
                 self.config.lb_size,
-                primary_header.part_size,
+                header.part_size,
             )?;
-            // IMPORTANT: must also write it to the backup header if it uses a different
-            // area to store the partition array; otherwise backup header will not point
-            // to an up to date partition array on disk.
-            if let Some(backup_header) = &backup_header {
-                if part_idx >= backup_header.num_parts as usize {
-                    return Err(GptError::OverflowPartitionCount);
-                }
-
-                if primary_header.part_start != backup_header.part_start {
-                    partition.1.write_to_device(
-                        &mut self.device,
-                        part_idx as u64,
-                        backup_header.part_start,
-                        self.config.lb_size,
-                        backup_header.part_size,
-                    )?;
-                }
-            }
-            next_partition_index = part_idx + 1;
+            next_partition_index += 1;
         }
 
-        // Next, write zeros to the rest of the primary/backup partition array
+        // Next, write zeros to the rest of the partition array
         // (ensures any newly deleted partitions are truly removed from disk, etc.)
-        // NOTE: we should never underflow here because of boundary checking in loop above.
+        // NOTE: we should never underflow here because of boundary checking in write_inplace.
         partition::Partition::write_zero_entries_to_device(
             &mut self.device,
-            next_partition_index as u64,
-            (primary_header.num_parts as u64)
-                .checked_sub(next_partition_index as u64)
+            next_partition_index,
+            u64::from(header.num_parts)
+                .checked_sub(next_partition_index)
                 .unwrap(),
-            primary_header.part_start,
+            header.part_start,
             self.config.lb_size,
-            primary_header.part_size,
+            header.part_size,
         )?;
-        if let Some(backup_header) = &backup_header {
-            partition::Partition::write_zero_entries_to_device(
-                &mut self.device,
-                next_partition_index as u64,
-                (backup_header.num_parts as u64)
-                    .checked_sub(next_partition_index as u64)
-                    .unwrap(),
-                backup_header.part_start,
-                self.config.lb_size,
-                backup_header.part_size,
-            )?;
-        }
 
-        if let Some(backup_header) = backup_header {
-            debug!("Writing backup header");
-            backup_header.write_backup(&mut self.device, self.config.lb_size)?;
-        }
-        debug!("Writing primary header");
-        primary_header.write_primary(&mut self.device, self.config.lb_size)?;
+        Ok(())
+    }
 
+    fn flush_device(&mut self) -> Result<(), GptError> {
         self.device.flush()?;
 
         if let Some(sync_all) = self.sync_all {
-- 
2.43.0


From 4d36791c2f43000508398dff0cc90de6693a9c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:12 +0000
Subject: [PATCH 15/18] fix: recognise a known partition type in any guid
 notation

---
 src/macros.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 00447a9..095fa31 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -36,10 +36,8 @@ pub mod pub_macros {
                         )+
                         _ => {
                             match ::uuid::Uuid::from_str(s) {
-                                Ok(u) => Ok(Type {
-                                    guid: u,
-                                    os: OperatingSystem::None,
-                                }),
+                                // might still be a known type in another notation
+                                Ok(u) => Ok(u.into()),
                                 Err(_) => Err("Invalid Partition Type GUID.".to_string()),
                             }
                         }
-- 
2.43.0


From 9c23f0ad263079b427aa521fce61048d1f241fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 16/18] fix: do not overflow when a partition ends at the last
 64-bit block

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index deb2cdc..add1dd9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -558,7 +558,7 @@ where
                     partition_id,
                     part_type,
                     starting_lba,
-                    starting_lba + size_lba - 1_u64
+                    starting_lba + (size_lba - 1_u64)
                 );
 
                 // let's try to increase the num parts
@@ -576,7 +576,7 @@ where
                     part_type_guid: part_type,
                     part_guid: uuid::Uuid::new_v4(),
                     first_lba: starting_lba,
-                    last_lba: starting_lba + size_lba - 1_u64,
+                    last_lba: starting_lba + (size_lba - 1_u64),
                     flags,
                     name: name.to_string(),
                 };
@@ -642,7 +642,7 @@ where
                 id,
                 part_type,
                 first_lba,
-                first_lba + length_lba - 1_u64
+                first_lba + (length_lba - 1_u64)
             );
 
             // let's try to increase the num parts
@@ -659,7 +659,7 @@ where
                 part_type_guid: part_type,
                 part_guid: uuid::Uuid::new_v4(),
                 first_lba,
-                last_lba: first_lba + length_lba - 1_u64,
+                last_lba: first_lba + (length_lba - 1_u64),
                 flags,
                 name: name.to_string(),
             };
-- 
2.43.0


From f494c51b02c940f6f5acd32385f1a0ce918c816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:47 +0000
Subject: [PATCH 17/18] fix: write a partition name the way it is read back

A name ends at its first nul, and cutting a long one in the middle of a
character left half a surrogate pair on the disk.
---
 src/partition.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/partition.rs b/src/partition.rs
index 594e172..9a96eae 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -84,9 +84,17 @@ impl Partition {
         buf.write_all(&self.last_lba.to_le_bytes())?;
         buf.write_all(&self.flags.to_le_bytes())?;
 
-        // Partition name as UTF16-LE.
-        for utf16_char in self.name.encode_utf16().take(36) {
-            buf.write_all(&utf16_char.to_le_bytes())?; // TODO: Check this
+        // Partition name as UTF16-LE, a name ends at its first NUL and
+        // is not cut in the middle of a character.
+        let mut name_len = 0;
+        for c in self.name.chars().take_while(|c| *c != '\0') {
+            name_len += c.len_utf16();
+            if name_len > 36 {
+                break;
+            }
+            for utf16_char in c.encode_utf16(&mut [0; 2]) {
+                buf.write_all(&utf16_char.to_le_bytes())?; // TODO: Check this
+            }
         }
 
         // Resize buffer to exact entry size.
-- 
2.43.0


From cf26fb989ae7dc724ac17c8cda40b7b158f17711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:45 +0000
Subject: [PATCH 18/18] fix: do not write beyond the end of a device that
 became smaller

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index add1dd9..783f490 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -938,6 +938,15 @@ where
             return Err(GptError::OverflowPartitionCount);
         }
 
+        // never write beyond the end of the device, it might be smaller than the one
+        // the headers were made for
+        let last_written = backup_header
+            .as_ref()
+            .map_or(primary_header.first_usable - 1, |h| h.current_lba);
+        if last_written > bak {
+            return Err(HeaderError::ToSmallForBackup.into());
+        }
+
         // One copy is always written completely before the other one is touched, if we get
         // interrupted there is still a valid copy. If only the backup on the device is
         // valid we need to preserve it until the primary is.
-- 
2.43.0

