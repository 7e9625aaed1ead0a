From 38d310972b44cedb87ab0dbf572f24babfeff975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 01/60] fix: cut off the remainder of a longer JPG file after
 writing

---
 src/jpg.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index 2ce0949..8f2933c 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -338,6 +338,9 @@ file_write_metadata
     file.seek(SeekFrom::Start(0))?;
     file.write_all(&file_buffer)?;
 
+    // The new content may be shorter than the old one
+    file.set_len(file_buffer.len() as u64)?;
+
     return Ok(());
 }
 
-- 
2.43.0


From 0b26d105400b78b345b98487f9fea8dd530b7023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 02/60] fix: report metadata that exceeds a JPG APP1 segment
 instead of writing a wrong length

---
 src/jpg.rs                  | 22 +++++++++++++++-------
 src/metadata/metadata_io.rs |  2 +-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 8f2933c..e36ad5b 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -27,14 +27,21 @@ encode_metadata_jpg
 (
     exif_vec: &[u8],
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     // vector storing the data that will be returned
     let mut jpg_exif: Vec<u8> = Vec::new();
 
     // Compute the length of the exif data (includes the two bytes of the
     // actual length field)
-    let length = 2u16 + (EXIF_HEADER.len() as u16) + (exif_vec.len() as u16);
+    let length = match u16::try_from(2 + EXIF_HEADER.len() + exif_vec.len())
+    {
+        Ok(length) => length,
+        Err(_)     => return io_error!(
+            InvalidInput,
+            "Metadata does not fit into a single JPG APP1 segment!"
+        ),
+    };
 
     // Start with the APP1 marker and the length of the data
     // Then copy the previously encoded EXIF data 
@@ -43,7 +50,7 @@ encode_metadata_jpg
     jpg_exif.extend(EXIF_HEADER.iter());
     jpg_exif.extend(exif_vec.iter());
 
-    return jpg_exif;
+    return Ok(jpg_exif);
 }
 
 
@@ -284,7 +291,7 @@ as_u8_vec
 (
     general_encoded_metadata: &[u8],
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     encode_metadata_jpg(general_encoded_metadata)
 }
@@ -299,12 +306,13 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
+    // Encode the data specifically for JPG
+    // Needs to be done first so that nothing is changed in case this fails
+    let mut encoded_metadata = encode_metadata_jpg(&metadata.encode()?)?;
+
     // Remove old metadata
     clear_metadata(file_buffer)?;
 
-    // Encode the data specifically for JPG
-    let mut encoded_metadata = encode_metadata_jpg(&metadata.encode()?);
-
     // Insert the metadata right after the signature
     crate::util::insert_multiple_at(file_buffer, 2, &mut encoded_metadata);
 
diff --git a/src/metadata/metadata_io.rs b/src/metadata/metadata_io.rs
index 3051daf..06bb2bf 100644
--- a/src/metadata/metadata_io.rs
+++ b/src/metadata/metadata_io.rs
@@ -389,7 +389,7 @@ Metadata
             FileExtension::PNG { as_zTXt_chunk } 
                 =>  png::as_u8_vec(&general_encoded_metadata, as_zTXt_chunk),
             FileExtension::JPEG 
-                =>  jpg::as_u8_vec(&general_encoded_metadata),
+                =>  jpg::as_u8_vec(&general_encoded_metadata)?,
             FileExtension::WEBP 
                  => webp::as_u8_vec(&general_encoded_metadata),
             FileExtension::HEIF 
-- 
2.43.0


From 3f14b053fc6a96613c45bf32a09915d1dd811c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:58 +0000
Subject: [PATCH 03/60] fix: don't mistake a short read for a missing JPG
 signature

---
 src/jpg.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index e36ad5b..c1f837e 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -82,12 +82,7 @@ file_check_signature
     
     // Read & check the signature
     let mut signature_buffer = [0u8; 2];
-    let bytes_read = file.read(&mut signature_buffer)?;
-
-    if bytes_read != 2
-    {
-        return io_error!(InvalidData, "Can't open JPG file - Can't read signature!");
-    }
+    file.read_exact(&mut signature_buffer)?;
 
     check_signature(&signature_buffer)?;
 
-- 
2.43.0


From f57b9a890d911c506aaafef800d97e32f09a8c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 04/60] fix: keep a JPG buffer unchanged if clearing a segment
 fails, and survive wrong segment lengths

---
 src/jpg.rs | 82 ++++++++++++++++++++++++------------------------------
 1 file changed, 36 insertions(+), 46 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index c1f837e..8048d24 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -116,7 +116,8 @@ clear_segment
     // Setup of variables necessary for going through the file
     let mut byte_buffer = [0u8; 1];                                             // A buffer for reading in a byte of data from the file
     let mut previous_byte_was_marker_prefix = false;                            // A boolean for remembering if the previous byte was a marker prefix (0xFF)
-    let mut cursor = Cursor::new(file_buffer);
+    let mut cursor = Cursor::new(file_buffer.as_slice());
+    let mut ranges_to_remove: Vec<std::ops::Range<usize>> = Vec::new();         // Where the segments to be cleared are located
 
     // Skip 0xFFD8 at the start
     cursor.seek(SeekFrom::Current(2))?;
@@ -130,7 +131,7 @@ clear_segment
             {
                 // Reached end of file without encountering EOI marker 0xd9
                 // See issue #93 for examples where this happens
-                return Ok(());
+                break;
             }
             else
             {
@@ -145,7 +146,7 @@ clear_segment
             if byte_buffer[0] == 0xd9                                           // EOI marker
             {
                 // No more data to read in
-                return Ok(());
+                break;
             }
 
             // Read in the length of the segment
@@ -155,58 +156,38 @@ clear_segment
 
             // Decode the length to determine how much more data there is
             let length = from_u8_vec_res_macro!(u16, &length_buffer, &Endian::Big)?;
+            if length < 2
+            {
+                return io_error!(InvalidData, "Mangled JPG data encountered!");
+            }
+
             let remaining_length = (length - 2) as usize;
 
             if byte_buffer[0] == segment_marker                                 // Given marker, e.g. for APP1
             {
-                // Backup current position, account for the 4 bytes already read
-                let backup_position = cursor.position() - 4;
-
-                let mut do_not_delete_segment_override = false;
-
-                // If we are given prefix bytes to check for, read them in
-                if let Some(prefix) = prefix_bytes
+                // Segment start accounts for the 4 bytes already read
+                let payload_start = cursor.position() as usize;
+                let segment_start = payload_start - 4;
+                let segment_end   = std::cmp::min(
+                    payload_start + remaining_length,
+                    file_buffer.len()
+                );
+
+                // If we are given prefix bytes to check for, only delete the 
+                // segment if the prefix matches
+                let delete_segment = match prefix_bytes
                 {
-                    let mut prefix_buffer = vec![0u8; prefix.len()];
-                    cursor.read_exact(&mut prefix_buffer)?;
-                    cursor.seek(SeekFrom::Current(-(prefix_buffer.len() as i64)))?;
+                    Some(prefix) => file_buffer[payload_start..segment_end].starts_with(prefix),
+                    None         => true,
+                };
 
-                    // We are given a prefix but don't know yet if it matches
-                    // So set the override to true for now as we might have to
-                    // skip deleting this segment if we don't get a match
-                    do_not_delete_segment_override = true;
-
-                    // Only delete the segment if the prefix matches
-                    if prefix_buffer.as_slice() == prefix
-                    {
-                        do_not_delete_segment_override = false;
-                    }
+                if delete_segment
+                {
+                    ranges_to_remove.push(segment_start..segment_end);
                 }
 
                 // Skip the segment
                 cursor.seek(SeekFrom::Current(remaining_length as i64))?;
-
-                // Overwrite segment only if we are allowed to
-                if !do_not_delete_segment_override
-                {
-                    // Copy data from there onwards into a buffer
-                    let mut temp_buffer = Vec::new();
-                    cursor.read_to_end(&mut temp_buffer)?;
-
-                    // Overwrite segment
-                    cursor.set_position(backup_position);
-                    cursor.write_all(&temp_buffer)?;
-
-                    // Cut off right-most bytes that are now duplicates due 
-                    // to the previous shift-to-left operation
-                    let cutoff_index = 0
-                        + backup_position as usize 
-                        + temp_buffer.len();
-                    cursor.get_mut().truncate(cutoff_index);
-
-                    // Seek to start of next segment
-                    cursor.set_position(backup_position);
-                }
             }
             else if byte_buffer[0] == 0xda
             {
@@ -220,7 +201,7 @@ clear_segment
                         // Again, same as the check above, we have reached end
                         // of file without encountering EOI marker 0xd9
                         // See issue #93 for examples where this happens
-                        return Ok(());
+                        break;
                     }
                     else
                     {
@@ -241,6 +222,15 @@ clear_segment
             previous_byte_was_marker_prefix = byte_buffer[0] == JPG_MARKER_PREFIX;
         }
     }
+
+    // Now that the entire file has been looked at without encountering any
+    // problems, remove the segments, starting with the last one
+    for range in ranges_to_remove.into_iter().rev()
+    {
+        file_buffer.drain(range);
+    }
+
+    return Ok(());
 }
 
 pub(crate) fn
-- 
2.43.0


From 5f010640105760cd4313b1a575f184bcceefb7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 05/60] fix: handle fill bytes and stand-alone markers in JPG
 files

---
 src/jpg.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index 8048d24..4f0d038 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -20,6 +20,18 @@ pub(crate) const JPG_SIGNATURE: [u8; 2] = [0xff, 0xd8];
 const JPG_MARKER_PREFIX: u8  = 0xff;
 const JPG_APP1_MARKER:   u16 = 0xffe1;
 
+/// Markers that are not followed by a length field & data: TEM, RST0-7, SOI
+/// Includes 0x00 as 0xFF00 isn't a marker at all
+fn
+is_standalone_marker
+(
+    marker: u8
+)
+-> bool
+{
+    return matches!(marker, 0x00 | 0x01 | 0xd0..=0xd8);
+}
+
 
 
 fn
@@ -141,6 +153,18 @@ clear_segment
 
         if previous_byte_was_marker_prefix
         {
+            // Any number of fill bytes may precede a marker
+            if byte_buffer[0] == JPG_MARKER_PREFIX
+            {
+                continue;
+            }
+
+            if is_standalone_marker(byte_buffer[0])
+            {
+                previous_byte_was_marker_prefix = false;
+                continue;
+            }
+
             // Check if this is the end of the file. In that case, the length
             // data can't be read and we need to return prematurely. 
             if byte_buffer[0] == 0xd9                                           // EOI marker
@@ -390,6 +414,11 @@ skip_ecs
         {
             match byte_buffer[0]
             {
+                JPG_MARKER_PREFIX => {
+                    // Fill byte, the marker is yet to come
+                    continue;
+                },
+
                 0xd0 |
                 0xd1 |
                 0xd2 |
@@ -438,6 +467,18 @@ generic_read_metadata
 
         if previous_byte_was_marker_prefix
         {
+            // Any number of fill bytes may precede a marker
+            if byte_buffer[0] == JPG_MARKER_PREFIX
+            {
+                continue;
+            }
+
+            if is_standalone_marker(byte_buffer[0])
+            {
+                previous_byte_was_marker_prefix = false;
+                continue;
+            }
+
             // Check if this is the end of the file. In that case, the length
             // data can't be read and we need to return prematurely. 
             // This is why this case can't be included in the match afterwards.
-- 
2.43.0


From 1e9f167de9c0253e7ee9adf4b406c0c5e41f86c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 06/60] fix: skip APP1 segments without EXIF data when reading
 JPG metadata

---
 src/jpg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 4f0d038..bf6fb0f 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -509,7 +509,11 @@ generic_read_metadata
                     let mut app1_buffer = vec![0u8; remaining_length];
                     cursor.read_exact(&mut app1_buffer)?;
 
-                    return Ok(app1_buffer);
+                    // APP1 is used for other data as well, e.g. XMP
+                    if app1_buffer.starts_with(&EXIF_HEADER)
+                    {
+                        return Ok(app1_buffer);
+                    }
                 },
 
                 0xda => {                                                       // SOS marker
-- 
2.43.0


From 8868e40ca2dad4967eb2a28e38c6e2ca21aea1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 07/60] fix: sort the offset tags into the IFD entries when
 encoding

---
 src/ifd/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 72e6e7b..b1a8984 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -504,6 +504,10 @@ ImageFileDirectory
             all_relevant_tags.extend(ifd_with_offset_info_only.get_tags().iter().cloned());
         }
 
+        // The offset tags have been put at the end but entries are required to
+        // be in ascending order, see `sort_tags`
+        all_relevant_tags.sort_by_key(|tag| tag.as_u16());
+
         // Start writing this IFD by adding the number of entries
         let count_entries = all_relevant_tags.iter().filter(
             |tag| tag.is_writable() || 
-- 
2.43.0


From 54fccd4bceaa314487cab686035dfdd2d3ed5041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 08/60] fix: report errors during encoding of an IFD instead of
 dropping the IFD

---
 src/metadata/mod.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 4e5ef43..529de51 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -192,22 +192,21 @@ Metadata
 
             let Some(last_ifd) = filter_result.last() else { continue; };
 
-            if let Ok((next_link_section, link_vec)) = last_ifd.encode_ifd(
+            let (next_link_section, link_vec) = last_ifd.encode_ifd(
                 self, 
                 &mut ifds_with_offset_info_only, 
                 &mut encode_vec, 
                 &mut current_offset
-            )
-            {
-                if let Some(index) = index_of_previous_ifds_link_section
-                {
-                    let mut cursor = Cursor::new(&mut encode_vec);
-                    cursor.set_position(index);
-                    cursor.write_all(&link_vec)?;
-                }
+            )?;
 
-                index_of_previous_ifds_link_section = Some(next_link_section);
+            if let Some(index) = index_of_previous_ifds_link_section
+            {
+                let mut cursor = Cursor::new(&mut encode_vec);
+                cursor.set_position(index);
+                cursor.write_all(&link_vec)?;
             }
+
+            index_of_previous_ifds_link_section = Some(next_link_section);
         }
 
         Ok(encode_vec)
-- 
2.43.0


From 5d08254c8cad240fcc75559d3987087f3efb38fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 09/60] fix: keep the numbers of IFDs if there is a gap or no
 IFD0

---
 src/metadata/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 529de51..dd01ba0 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -188,9 +188,14 @@ Metadata
                 ifd.get_ifd_type()       == ExifTagGroup::GENERIC
             ).collect::<Vec<&ImageFileDirectory>>();
 
-            assert!(filter_result.len() <= 1);
-
-            let Some(last_ifd) = filter_result.last() else { continue; };
+            // In case there is no such IFD encode an empty one, so that there
+            // always is an IFD0 and the following ones keep their number
+            let empty_ifd = ImageFileDirectory::new_with_tags(
+                Vec::new(),
+                ExifTagGroup::GENERIC,
+                n
+            );
+            let last_ifd = filter_result.last().copied().unwrap_or(&empty_ifd);
 
             let (next_link_section, link_vec) = last_ifd.encode_ifd(
                 self, 
-- 
2.43.0


From 8b25578350eb34271f8bc0f547c451c3036832ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 10/60] fix: survive cyclic and repeated links between IFDs

---
 src/ifd/mod.rs      | 10 ++++++++++
 src/metadata/mod.rs | 10 +++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index b1a8984..38f92b5 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -258,6 +258,16 @@ ImageFileDirectory
             // If this is an IFD offset tag, perform a recursive call
             if let TagType::IFD_OFFSET(subifd_group) = tag.get_tag_type()
             {
+                // There can only be one SubIFD of each kind
+                if insert_into.iter().any(|ifd| 
+                    ifd.get_generic_ifd_nr() == generic_ifd_nr &&
+                    ifd.get_ifd_type()       == subifd_group
+                )
+                {
+                    log::warn!("Found another offset tag for SubIFD {subifd_group:?}, ignoring it");
+                    continue;
+                }
+
                 // Compute the offset to the SubIFD and save the current position
                 let offset          = from_u8_vec_res_macro!(u32, &raw_data, endian)? as usize;
                 let backup_position = data_cursor.position();
diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index dd01ba0..9d0eeb6 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -233,7 +233,7 @@ Metadata
             {
                 if a.get_ifd_type() == b.get_ifd_type()
                 {
-                    panic!("Should not have two different IFDs with same group & number!");
+                    return std::cmp::Ordering::Equal;
                 }
                 if a.get_ifd_type() < b.get_ifd_type()
                 {
@@ -308,8 +308,16 @@ Metadata
         // Decode all the IFDs
         let mut ifds = Vec::new();
         let mut generic_ifd_nr = 0;
+        let mut visited_ifd_offsets = std::collections::HashSet::new();
         while let Some(ifd_offset) = ifd_offset_option
         {
+            // Don't follow links to IFDs that have already been decoded
+            if !visited_ifd_offsets.insert(ifd_offset)
+            {
+                log::warn!("The links between the IFDs form a cycle!");
+                break;
+            }
+
             data_cursor.set_position(data_start_position);
             data_cursor.seek(std::io::SeekFrom::Current(ifd_offset as i64))?;
 
-- 
2.43.0


From 0f77e3606a7923c18a38488f6fc931249b97ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 11/60] fix: don't allocate memory for more EXIF data than
 there is

---
 src/ifd/mod.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 38f92b5..355f5ef 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -94,6 +94,27 @@ ImageFileDirectory
         self.tags.sort_by_key(|tag| tag.as_u16());
     }
 
+    /// Reads the given number of bytes, but doesn't allocate memory for them
+    /// in case there is not enough data left 
+    fn
+    read_data
+    (
+        data_cursor: &mut Cursor<&Vec<u8>>,
+        byte_count:       u32,
+    )
+    -> Result<Vec<u8>, std::io::Error>
+    {
+        let remaining = (data_cursor.get_ref().len() as u64).saturating_sub(data_cursor.position());
+        if byte_count as u64 > remaining
+        {
+            return io_error!(UnexpectedEof, format!("Not enough data! Required: {} Available: {}", byte_count, remaining));
+        }
+
+        let mut data_buffer = vec![0u8; byte_count as usize];
+        data_cursor.read_exact(&mut data_buffer)?;
+        return Ok(data_buffer);
+    }
+
     /// If everything goes Ok and there is enough data to unpack, this returns
     /// the offset to the next generic IFD that needs to be processed.
     pub(crate) fn
@@ -203,9 +224,7 @@ ImageFileDirectory
                 data_cursor.seek(std::io::SeekFrom::Current(hex_offset as i64))?;
 
                 // Read the raw data
-                let mut raw_data_buffer = vec![0u8; byte_count as usize];
-                data_cursor.read_exact(&mut raw_data_buffer)?;
-                raw_data = raw_data_buffer.to_vec();
+                raw_data = Self::read_data(data_cursor, byte_count)?;
             
                 // Rewind the cursor to the start of the next entry
                 data_cursor.set_position(backup_position);
@@ -392,9 +411,7 @@ ImageFileDirectory
                     data_cursor.set_position(data_begin_position);
                     data_cursor.seek(std::io::SeekFrom::Current(*offset as i64))?;
 
-                    let mut data_buffer = vec![0u8; *byte_count as usize];
-                    data_cursor.read_exact(&mut data_buffer)?;
-                    strip_data.push(data_buffer);
+                    strip_data.push(Self::read_data(data_cursor, *byte_count)?);
                 }
 
                 // Push StripOffset tag to tags vector
@@ -427,12 +444,10 @@ ImageFileDirectory
 
                 if offset.len() == 1 && length.len() == 1
                 {
-                    let mut thumbnail_data = vec![0u8; length[0] as usize];
-
                     // Gather the data at the offset
                     data_cursor.set_position(data_begin_position);
                     data_cursor.seek(std::io::SeekFrom::Current(offset[0] as i64))?;
-                    data_cursor.read_exact(&mut thumbnail_data)?;
+                    let thumbnail_data = Self::read_data(data_cursor, length[0])?;
 
                     // Push ThumbnailOffset tag to tags vector
                     tags.push(ExifTag::ThumbnailOffset(Vec::new(), thumbnail_data));
-- 
2.43.0


From 54291e1f3b0731fb843b55ac946c05b7f83f2d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 12/60] fix: return an error for values outside the range of
 the expected format

---
 src/exif_tag/decode.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/exif_tag/decode.rs b/src/exif_tag/decode.rs
index bdeb002..a8785d3 100644
--- a/src/exif_tag/decode.rs
+++ b/src/exif_tag/decode.rs
@@ -54,6 +54,10 @@ decode_tag_with_format_exceptions
 			(ExifTagFormat::INT16U, ExifTagFormat::INT32U) => {
 				// Not sure how to be more cautious in this case...
 				let int32u_data = <INT32U as U8conversion<INT32U>>::from_u8_vec(raw_data, endian);
+				if int32u_data.iter().any(|x| *x > u16::MAX as u32)
+				{
+					return io_error!(InvalidData, format!("Value too large for tag {:?}", raw_tag));
+				}
 				let int16u_data = int32u_data.into_iter().map(|x| x as u16).collect::<Vec<u16>>();
 				return raw_tag.set_value_to_int16u_vec(int16u_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
@@ -74,8 +78,11 @@ decode_tag_with_format_exceptions
 				let int8u_data  = int16u_data.clone().into_iter().map(|x| x as u8).collect::<Vec<u8>>();
 				for (element_u16, element_u8) in int16u_data.iter().zip(int8u_data.iter())
 				{
-					// Assert that the int16u data is within int8u range
-					assert_eq!(*element_u16, *element_u8 as u16);
+					// Make sure that the int16u data is within int8u range
+					if *element_u16 != *element_u8 as u16
+					{
+						return io_error!(InvalidData, format!("Value too large for tag {:?}", raw_tag));
+					}
 				}
 				return raw_tag.set_value_to_int8u_vec(int8u_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
@@ -96,7 +103,7 @@ decode_tag_with_format_exceptions
 					// if it is 0x01 or 0x31 ("1") we set it to 1, and
 					// otherwise we panic and tell the user to open a ticket.
 
-					let first_char = raw_data[0];
+					let first_char = raw_data.first().copied().unwrap_or(0x00);
 					let int8u_data = match first_char
 					{
 						0x00 | 0x30 => vec![0u8],
-- 
2.43.0


From 511a11c4415748cecbb719bac790268fb7a8d361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 13/60] fix: derive the number of components from the encoded
 value

---
 src/ifd/mod.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 355f5ef..55822d3 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -658,19 +658,11 @@ ImageFileDirectory
             encode_vec.extend(to_u8_vec_macro!(u16, &tag.format().as_u16(), &data.get_endian()).iter());
 
             // Add number of components /                                       4 bytes
-            let number_of_components: u32 = tag.number_of_components();
+            // Based on the actual data: A tag without any value has none, even if
+            // the specification predefines the number of its components
+            let number_of_components: u32 = value.len() as u32 / tag.format().bytes_per_component();
             encode_vec.extend(to_u8_vec_macro!(u32, &number_of_components, &data.get_endian()).iter());
 
-            // Optional string padding (i.e. string is shorter than it should be)
-            let mut string_padding: Vec<u8> = Vec::new();
-            if tag.is_string()
-            {
-                string_padding = vec![
-                    0x00; 
-                    number_of_components as usize - value.len()
-                ];
-            }
-
             // Add offset or value /                                            4 bytes
             // Depending on the amount of data, either put it directly into
             // next 4 bytes or write an offset where the data can be found 
@@ -679,7 +671,6 @@ ImageFileDirectory
             {
                 encode_vec.extend(to_u8_vec_macro!(u32, current_offset, &data.get_endian()).iter());
                 ifd_offset_area.extend(value.iter());
-                ifd_offset_area.extend(string_padding.iter());
 
                 *current_offset += byte_count;
 
@@ -693,7 +684,6 @@ ImageFileDirectory
                 let pre_length = encode_vec.len();
 
                 encode_vec.extend(value.iter());
-                encode_vec.extend(string_padding.iter());
 
                 let post_length = encode_vec.len();
 
-- 
2.43.0


From 319ebc9728f932a6f09974243321e50dda27f12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 14/60] fix: keep rationals exact when converting them to
 signed rationals

---
 src/exif_tag/decode.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/exif_tag/decode.rs b/src/exif_tag/decode.rs
index a8785d3..5638be5 100644
--- a/src/exif_tag/decode.rs
+++ b/src/exif_tag/decode.rs
@@ -130,9 +130,14 @@ decode_tag_with_format_exceptions
 			// See issue #21
 			(ExifTagFormat::RATIONAL64S, ExifTagFormat::RATIONAL64U) => {
 				let uR64_data = <RATIONAL64U as U8conversion<RATIONAL64U>>::from_u8_vec(raw_data, endian);
-				let iR64_data = uR64_data
-					.into_iter().map(|x| x.into()).collect::<Vec<f64>>()
-					.into_iter().map(|x| x.into()).collect::<Vec<iR64>>();
+				let iR64_data = uR64_data.into_iter().map(|x| 
+					match (i32::try_from(x.nominator), i32::try_from(x.denominator))
+					{
+						// Keep the fraction as it is
+						(Ok(nominator), Ok(denominator)) => iR64 { nominator, denominator },
+						_                                => f64::from(x).into(),
+					}
+				).collect::<Vec<iR64>>();
 
 				return raw_tag.set_value_to_iR64_vec(iR64_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
-- 
2.43.0


From 1289cef99230c83679167300c00ec9f3dd72a122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 15/60] fix: cut off the remainder of a longer TIFF after
 writing and report failed writes

---
 src/tiff/file.rs | 14 ++++++++------
 src/tiff/vec.rs  | 15 +++++++++------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/tiff/file.rs b/src/tiff/file.rs
index 0066f7c..bfeb230 100644
--- a/src/tiff/file.rs
+++ b/src/tiff/file.rs
@@ -2,7 +2,7 @@
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
 use std::io::BufReader;
-use std::io::BufWriter;
+use std::io::Seek;
 use std::path::Path;
 
 use crate::general_file_io::open_read_file;
@@ -38,9 +38,7 @@ clear_metadata
 	data.reduce_to_a_minimum();
 
 	// Write the reduced data back to the backup cursor
-	generic_write_metadata(&mut BufWriter::new(open_write_file(path)?), &data)?;
-
-	return Ok(());
+	return write_metadata(path, &data);
 }
 
 pub(crate) fn 
@@ -51,6 +49,10 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-	let mut buffered_file = BufWriter::new(open_write_file(path)?);
-	return generic_write_metadata(&mut buffered_file, metadata);
+	let mut file = open_write_file(path)?;
+	generic_write_metadata(&mut file, metadata)?;
+
+	// The new content may be shorter than the old one
+	let new_length = file.stream_position()?;
+	return file.set_len(new_length);
 }
\ No newline at end of file
diff --git a/src/tiff/vec.rs b/src/tiff/vec.rs
index 09ac912..6b232b4 100644
--- a/src/tiff/vec.rs
+++ b/src/tiff/vec.rs
@@ -27,8 +27,7 @@ clear_metadata
 -> Result<(), std::io::Error>
 {
 	// Create cursor
-	let mut cursor           = Cursor::new(file_buffer);
-	let     cursor_start_pos = cursor.position();
+	let mut cursor = Cursor::new(file_buffer.as_slice());
 
 	// Read in the data
 	let     raw_data = generic_read_metadata(&mut cursor);
@@ -37,9 +36,8 @@ clear_metadata
 	// Remove all IFDs that aren't required
 	data.reduce_to_a_minimum();
 
-	// Write the reduced data back to the backup cursor
-	cursor.set_position(cursor_start_pos);
-	return generic_write_metadata(&mut cursor, &data);
+	// Write the reduced data back to the buffer
+	return write_metadata(file_buffer, &data);
 }
 
 pub(crate) fn
@@ -51,5 +49,10 @@ write_metadata
 -> Result<(), std::io::Error>
 {
 	let mut cursor = Cursor::new(file_buffer);
-	return generic_write_metadata(&mut cursor, metadata);
+	generic_write_metadata(&mut cursor, metadata)?;
+
+	// The new content may be shorter than the old one
+	let new_length = cursor.position() as usize;
+	cursor.into_inner().truncate(new_length);
+	return Ok(());
 }
\ No newline at end of file
-- 
2.43.0


From d2be1e3c3ea23510edb16f1fc126dcb970b65450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 16/60] fix: keep all tags that describe the image data when
 clearing TIFF metadata

---
 src/metadata/edit.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/metadata/edit.rs b/src/metadata/edit.rs
index d3f85de..25275f0 100644
--- a/src/metadata/edit.rs
+++ b/src/metadata/edit.rs
@@ -46,6 +46,34 @@ Metadata
 					| ExifTag::YResolution(_)
 					| ExifTag::ResolutionUnit(_)
 					| ExifTag::ColorMap(_)
+					| ExifTag::CellWidth(_)
+					| ExifTag::CellHeight(_)
+					| ExifTag::PlanarConfiguration(_)
+					| ExifTag::TransferFunction(_)
+					| ExifTag::WhitePoint(_)
+					| ExifTag::PrimaryChromaticities(_)
+					| ExifTag::YCbCrCoefficients(_)
+					| ExifTag::YCbCrSubSampling(_)
+					| ExifTag::YCbCrPositioning(_)
+					| ExifTag::ReferenceBlackWhite(_)
+					=> (),
+
+					// Tags that describe how the image data needs to be 
+					// interpreted but have no variant in the ExifTag enum
+					unknown if matches!(
+						unknown.as_u16(),
+						  0x00fe | 0x00ff                               // (New)SubfileType
+						| 0x0107                                        // Threshholding
+						| 0x010a                                        // FillOrder
+						| 0x0122 | 0x0123                               // GrayResponseUnit, GrayResponseCurve
+						| 0x0124 | 0x0125                               // T4Options, T6Options
+						| 0x013d                                        // Predictor
+						| 0x014c..=0x0151                               // InkSet ... TargetPrinter
+						| 0x0152..=0x0155                               // ExtraSamples ... SMaxSampleValue
+						| 0x0156                                        // TransferRange
+						| 0x015b                                        // JPEGTables
+						| 0x8773                                        // ICC profile
+					)
 					=> (),
 
 					_ 
-- 
2.43.0


From d7c1a087583086f3ea8b3b469705e1a5c8d6bbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 17/60] fix: refuse to write TIFFs whose tiles or SubIFDs would
 get lost

---
 src/tiff/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tiff/mod.rs b/src/tiff/mod.rs
index 9b51379..9df9fc8 100644
--- a/src/tiff/mod.rs
+++ b/src/tiff/mod.rs
@@ -101,6 +101,16 @@ check_for_required_tags
         return io_error!(NotFound, "TIFF requires ResolutionUnit (0x0128) tag!");
     }
 
+    // Next, check for tags with offsets to data that isn't part of the metadata
+    // struct (tiles & SubIFDs) - the data would get lost
+    for hex in [0x0144, 0x014a]
+    {
+        if metadata.get_tag_by_hex(hex, Some(GENERIC)).count() != 0
+        {
+            return io_error!(Unsupported, format!("Can't write TIFF with tag 0x{hex:04x}!"));
+        }
+    }
+
     // Now check for tags that are required only by some TIFF variants
 
     // BitsPerSample: 0x0102
-- 
2.43.0


From ad2a4959b00e1af76638cfdfdf8ce494b6516b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 18/60] fix: clear JXL metadata without endless loops, panics
 or partial changes

---
 src/jxl.rs | 147 +++++++++++++++++++++++++----------------------------
 1 file changed, 70 insertions(+), 77 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index ee028e6..b1e2713 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -1,7 +1,6 @@
 // Copyright © 2024-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
-use std::fs::File;
 use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
@@ -101,26 +100,49 @@ check_signature
     return Ok(());
 }
 
+/// Reads the header of the box at the current position of the cursor and 
+/// leaves the cursor at the start of the contents of the box.
+/// Returns the type of the box and the number of bytes its contents have
 fn
-file_check_signature
+read_box_header
+<T: Seek + Read>
 (
-    path: &Path
+    cursor: &mut T
 )
--> Result<File, std::io::Error>
+-> Result<([u8; 4], u64), std::io::Error>
 {
-    let mut file = open_write_file(path)?;
-
-    let mut signature_buffer = [0u8; 12];
-    let bytes_read = file.read(&mut signature_buffer)?;
+    let mut length_buffer = [0u8; 4];
+    let mut type_buffer   = [0u8; 4];
+    cursor.read_exact(&mut length_buffer)?;
+    cursor.read_exact(&mut type_buffer)?;
 
-    if bytes_read != 12
+    let content_length = match from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?
+    {
+        // The box extends to the end of the file
+        0 => {
+            let position = cursor.stream_position()?;
+            let end      = cursor.seek(SeekFrom::End(0))?;
+            cursor.seek(SeekFrom::Start(position))?;
+            Some(end - position)
+        },
+
+        // The length does not fit in 4 bytes and follows the type
+        1 => {
+            let mut large_length_buffer = [0u8; 8];
+            cursor.read_exact(&mut large_length_buffer)?;
+            from_u8_vec_res_macro!(u64, &large_length_buffer, &Endian::Big)?.checked_sub(16)
+        },
+
+        // Account for the 8 bytes of length and box type
+        length => (length as u64).checked_sub(8),
+    };
+
+    match content_length
     {
-        return io_error!(InvalidData, "Can't open JXL file - Can't read signature!");
+        // Upper bound ensures that relative seeking is possible
+        Some(length) if length <= i64::MAX as u64 => Ok((type_buffer, length)),
+        _ => io_error!(InvalidData, "Invalid box length found in JXL data!"),
     }
-
-    check_signature(&signature_buffer)?;
-
-    return Ok(file);
 }
 
 
@@ -134,35 +156,35 @@ clear_metadata
 {
     check_signature(file_buffer)?;
 
-    let mut position = 0;
+    let     file_length      = file_buffer.len() as u64;
+    let mut ranges_to_remove = Vec::new();
+    let mut cursor           = Cursor::new(file_buffer.as_slice());
 
     loop
     {
-        if position >= file_buffer.len() { return Ok(()); }
+        let box_start = cursor.position();
+        if box_start >= file_length { break; }
 
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box 
-        let length_buffer = file_buffer[position..position+4].to_vec();
-        let length        = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
+        let (type_buffer, length) = read_box_header(&mut cursor)?;
+        let contents_start        = cursor.position();
+        let box_end               = contents_start.saturating_add(length);
 
-        // Next, read the box type
-        let type_buffer = file_buffer[position+4..position+8].to_vec();
-
-        if box_contains_exif(
-            &mut Cursor::new(
-                file_buffer[position+8..position+12].to_vec()
-            ), 
-            [type_buffer[0], type_buffer[1], type_buffer[2], type_buffer[3]]
-        )?
-        {
-            range_remove(file_buffer, position, position+length);
-        }
-        else
+        if box_contains_exif(&mut cursor, type_buffer, length)?
         {
-            // Not an EXIF box so skip it
-            position += length;
+            ranges_to_remove.push((box_start as usize, box_end as usize));
         }
+
+        cursor.set_position(box_end);
     }
+
+    // Now that the entire file has been looked at without encountering any
+    // problems, remove the boxes, starting with the last one
+    for (start, end) in ranges_to_remove.into_iter().rev()
+    {
+        range_remove(file_buffer, start, end);
+    }
+
+    return Ok(());
 }
 
 pub(crate) fn
@@ -172,50 +194,20 @@ file_clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    let mut file = file_check_signature(path)?;
-
-    let mut length_buffer = [0u8; 4];
-    let mut type_buffer   = [0u8; 4];
-
-    loop
-    {
-        let position        = file.stream_position()?;
-        let old_file_length = file.metadata()?.len();
-        if position >= old_file_length { return Ok(()); }
-
-        file.read_exact(&mut length_buffer)?;
-        file.read_exact(&mut type_buffer)?;
-
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
-
-        if box_contains_exif(&mut file, type_buffer)?
-        {
-            // Seek past the EXIF box ...
-            file.seek(SeekFrom::Current((length-8) as i64))?;
-
-
-            // ... copy everything from here onwards into a buffer ...
-            let mut buffer = Vec::new();
-            file.read_to_end(&mut buffer)?;
+    // Load the entire file into memory so that the file is changed only once
+    // all boxes have been looked at
+    let mut file = open_write_file(path)?;
+    let mut file_buffer: Vec<u8> = Vec::new();
+    file.read_to_end(&mut file_buffer)?;
 
-            // ... seek back to the start of the EXIF box ...
-            file.seek(std::io::SeekFrom::Start(position))?;
+    clear_metadata(&mut file_buffer)?;
 
-            // ... overwrite everything from here onward ...
-            file.write_all(&buffer)?;
-            file.seek(std::io::SeekFrom::Start(position))?;
+    // Seek back to start & write the file
+    file.seek(SeekFrom::Start(0))?;
+    file.write_all(&file_buffer)?;
+    file.set_len(file_buffer.len() as u64)?;
 
-            // ... and finally update the file size - otherwise there will be
-            // duplicate bytes at the end!
-            file.set_len(old_file_length - length as u64)?;
-        }
-        else
-        {
-            // Not an EXIF box so skip it
-            assert_eq!(position+8, file.stream_position()?);
-            file.seek(SeekFrom::Current((length-8) as i64))?;
-        }
-    }
+    return Ok(());
 }
 
 
@@ -246,6 +238,7 @@ box_contains_exif
 (
     cursor:      &mut T,
     type_buffer:  [u8; 4],
+    length:       u64,
 )
 -> Result<bool, std::io::Error>
 {
@@ -253,7 +246,7 @@ box_contains_exif
     {
         return Ok(true);
     }
-    if type_buffer == BROB_BOX && check_brob_type_for_exif(cursor)?
+    if type_buffer == BROB_BOX && length >= 4 && check_brob_type_for_exif(cursor)?
     {
         return Ok(true);
     }
-- 
2.43.0


From 28e2b3623c492fd75106e20bb8d59e63831f398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 19/60] fix: cut off the remainder of a longer JXL file after
 writing

---
 src/jxl.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jxl.rs b/src/jxl.rs
index b1e2713..19a8c13 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -506,5 +506,8 @@ file_write_metadata
     file.seek(SeekFrom::Start(0))?;
     file.write_all(&file_buffer)?;
 
+    // The new content may be shorter than the old one
+    file.set_len(file_buffer.len() as u64)?;
+
     return Ok(());
 }
\ No newline at end of file
-- 
2.43.0


From 216c42fe0cd15f8ea5fb1d1e350741733415fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 20/60] fix: leave a JXL buffer unchanged if writing metadata
 fails

---
 src/jxl.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index 19a8c13..e826519 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -450,10 +450,15 @@ write_metadata
 )
 -> Result<(), std::io::Error> 
 {
+    // Encode first so that nothing is changed in case this fails
+    let mut encoded_metadata = encode_metadata_jxl(&metadata.encode()?);
+
+    // For the same reason, don't work on the given buffer directly
+    let mut new_file_buffer = Vec::new();
+
     if starts_with_jxl_signature(file_buffer)
     {
         // Need to modify the file_buffer first so that it is a ISO BMFF 
-        let mut new_file_buffer = Vec::new();
 
         // Start of the new file
         new_file_buffer.extend(ISO_BMFF_JXL_SIGNATURE);
@@ -466,19 +471,22 @@ write_metadata
         let jxlc_box_length = file_buffer.len() as u32 + 8;
         new_file_buffer.extend(to_u8_vec_macro!(u32, &jxlc_box_length, &Endian::Big));
         new_file_buffer.extend(IsoBmffBoxType::JXLC);
-        new_file_buffer.append(file_buffer);
-
-        // Replace file buffer
-        *file_buffer = new_file_buffer;
+        new_file_buffer.extend_from_slice(file_buffer);
+    }
+    else
+    {
+        new_file_buffer.extend_from_slice(file_buffer);
     }
 
     // Remove old metadata
-    clear_metadata(file_buffer)?;
+    clear_metadata(&mut new_file_buffer)?;
     
     // Insert new metadata
-    let mut encoded_metadata = encode_metadata_jxl(&metadata.encode()?);
-    let     insert_position  = find_insert_position(file_buffer)?;
-    insert_multiple_at(file_buffer, insert_position, &mut encoded_metadata);
+    let insert_position = find_insert_position(&new_file_buffer)?;
+    insert_multiple_at(&mut new_file_buffer, insert_position, &mut encoded_metadata);
+
+    // Replace file buffer
+    *file_buffer = new_file_buffer;
 
     return Ok(());
 }
-- 
2.43.0


From 309cecf1fc4d25794c4a4c4bd79363edd94968e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 21/60] fix: read JXL boxes of any kind of length and EXIF data
 at any offset

---
 src/jxl.rs | 131 +++++++++++++++++++++++++++--------------------------
 1 file changed, 68 insertions(+), 63 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index e826519..61a9147 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -32,6 +32,9 @@ pub(crate) const FTYP_BOX: [u8; 20] = [
 
 pub(crate) const ISO_BMFF_EXIF_MINOR_VERSION: [u8; 4] = [0x00, 0x00, 0x00, 0x06];
 
+/// Upper limit for the size of brotli compressed EXIF data
+const MAX_DECOMPRESSED_SIZE: u64 = 32 * 1024 * 1024;
+
 pub(crate) const BROB_BOX: [u8; 4] = [0x62, 0x72, 0x6f, 0x62];
 
 #[non_exhaustive]
@@ -281,16 +284,54 @@ file_read_metadata
 
     // Read first 12 bytes and check that we have a ISO BMFF file
     let mut first_12_bytes = [0u8; 12];
-    let     bytes_read     = file.read(&mut first_12_bytes)?;
+    file.read_exact(&mut first_12_bytes)?;
+
+    check_signature(&first_12_bytes)?;
+
+    return generic_read_metadata(&mut file);
+}
+
+/// Reads the contents of a box without trusting its length to be correct when
+/// it comes to allocating memory
+fn
+read_box_contents
+<T: Seek + Read>
+(
+    cursor: &mut T,
+    length: u64,
+)
+-> Result<Vec<u8>, std::io::Error>
+{
+    let mut contents = Vec::new();
+    cursor.take(length).read_to_end(&mut contents)?;
 
-    if bytes_read != 12
+    if contents.len() as u64 != length
     {
-        return io_error!(InvalidData, "Can't open JXL file - Can't read & check ISO BMFF signature!");
+        return io_error!(UnexpectedEof, "Not enough data for JXL box!");
     }
 
-    check_signature(&first_12_bytes)?;
+    return Ok(contents);
+}
 
-    return generic_read_metadata(&mut file);
+/// The contents of an EXIF box start with 4 bytes that tell how many bytes
+/// follow until the TIFF header
+fn
+strip_tiff_header_offset
+(
+    mut contents: Vec<u8>
+)
+-> Result<Vec<u8>, std::io::Error>
+{
+    if contents.len() < 4
+    {
+        return io_error!(InvalidData, "JXL EXIF box is too small!");
+    }
+
+    let offset = from_u8_vec_res_macro!(u32, &contents[0..4], &Endian::Big)? as usize;
+    let start  = std::cmp::min(offset.saturating_add(4), contents.len());
+
+    contents.drain(..start);
+    return Ok(contents);
 }
 
 fn
@@ -303,68 +344,44 @@ generic_read_metadata
 {
     loop
     {
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box (and account for the 8 bytes of length
-        // and box type)
-        let mut length_buffer = [0u8; 4];
-        cursor.read_exact(&mut length_buffer)?;
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?.checked_sub(8).ok_or(
-            std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                "Invalid box length found when reading JXL metadata!"
-            )
-        )?;
-
-        // Next, read the box type
-        let mut type_buffer = [0u8; 4];
-        cursor.read_exact(&mut type_buffer)?;
+        // Get the box type and the length of the contents of the current box
+        let (type_buffer, length) = read_box_header(cursor)?;
 
         match type_buffer
         {
             EXIF => {
-                // Skip the next 4 bytes (which contain the minor version???)
-                cursor.seek(SeekFrom::Current(4))?;
-
-                // `length-4` because of the previous relative seek operation
-                let mut exif_buffer = vec![0u8; (length-4) as usize];
-                cursor.read_exact(&mut exif_buffer)?;
-
-                return Ok(exif_buffer);
+                return strip_tiff_header_offset(read_box_contents(cursor, length)?);
             },
 
             BROB_BOX => { // -> Brotli encoded data
 
-                let position = cursor.stream_position()? as usize;
+                let position = cursor.stream_position()?;
 
-                if check_brob_type_for_exif(cursor)?
+                if length >= 4 && check_brob_type_for_exif(cursor)?
                 {
-                    // Skip the next 4 bytes (which contain the minor version???)
+                    // Skip the type of the compressed box
                     cursor.seek(SeekFrom::Current(4))?;
 
-                    let mut compressed_exif_buffer = vec![
-                        0u8; 
-                        (length-4) as usize
-                    ];
-                    cursor.read_exact(&mut compressed_exif_buffer)?;
+                    let compressed_exif_buffer = read_box_contents(cursor, length - 4)?;
                     
+                    // Don't blindly decompress everything but impose a limit
                     let mut decompressed_exif_buffer = Vec::new();
+                    let mut decompressor = brotli::Decompressor::new(
+                        Cursor::new(compressed_exif_buffer),
+                        4096
+                    ).take(MAX_DECOMPRESSED_SIZE + 1);
+                    decompressor.read_to_end(&mut decompressed_exif_buffer)?;
 
-                    match brotli::BrotliDecompress(
-                        &mut Cursor::new(compressed_exif_buffer), 
-                        &mut decompressed_exif_buffer
-                    ) 
+                    if decompressed_exif_buffer.len() as u64 > MAX_DECOMPRESSED_SIZE
                     {
-                        Ok(_)  => (),
-                        Err(e) => return Err(e)
-                    };
+                        return io_error!(InvalidData, "Compressed JXL EXIF data is too large!");
+                    }
 
-                    // Ignore the next 4 bytes (I guess for the same reason 
-                    // as above - some sort of minor version?)
-                    return Ok(decompressed_exif_buffer[4..].to_vec());
+                    return strip_tiff_header_offset(decompressed_exif_buffer);
                 }
                 else 
                 {
-                    cursor.seek(SeekFrom::Start(position as u64 + length as u64))?;
+                    cursor.seek(SeekFrom::Start(position.saturating_add(length)))?;
                 }
             }
 
@@ -412,21 +429,9 @@ find_insert_position
 
     loop
     {
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box (and account for the 8 bytes of length
-        // and box type)
-        let mut length_buffer = [0u8; 4];
-        cursor.read_exact(&mut length_buffer)?;
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?.checked_sub(8).ok_or(
-            std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                "Invalid box length found when reading JXL metadata!"
-            )
-        )? as usize;
-
-        // Next, read the box type
-        let mut type_buffer = [0u8; 4];
-        cursor.read_exact(&mut type_buffer)?;
+        // Get the box type and the length of the contents of the current box
+        let box_start             = cursor.position();
+        let (type_buffer, length) = read_box_header(&mut cursor)?;
 
         match type_buffer
         {
@@ -436,7 +441,7 @@ find_insert_position
                 cursor.seek(SeekFrom::Current(length as i64))?;
             }
             _ => {
-                return Ok(cursor.position() as usize - 8);
+                return Ok(box_start as usize);
             }
         }
     }
-- 
2.43.0


From a5253266d0a9ef9a72f62ca537a0b1942d48e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 22/60] fix: keep the JXL level box directly behind the file
 type box

---
 src/jxl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index 61a9147..2cf2ee1 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -44,6 +44,7 @@ impl IsoBmffBoxType {
     pub const EXIF: [u8; 4] = [0x45, 0x78, 0x69, 0x66]; // "Exif"
     pub const FTYP: [u8; 4] = [0x66, 0x74, 0x79, 0x70]; // "ftyp"
     pub const JXL:  [u8; 4] = [0x4a, 0x58, 0x4c, 0x20]; // "JXL "
+    pub const JXLL: [u8; 4] = [0x6a, 0x78, 0x6c, 0x6c]; // "jxll"
     pub const JXLC: [u8; 4] = [0x6a, 0x78, 0x6c, 0x63]; // "jxlc"
 }
 
@@ -436,7 +437,8 @@ find_insert_position
         match type_buffer
         {
             IsoBmffBoxType::JXL |
-            IsoBmffBoxType::FTYP => {
+            IsoBmffBoxType::FTYP |
+            IsoBmffBoxType::JXLL => {
                 // Place exif box after these boxes
                 cursor.seek(SeekFrom::Current(length as i64))?;
             }
-- 
2.43.0


From fac8c81a5905dd75cc9af4eac6846b40523fe1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 23/60] fix: read fixed-size fields completely even if a read
 returns fewer bytes

---
 src/util.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index efade4c..f6444db 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -18,10 +18,9 @@ read_1_bytes
 {
     // Read in the 1 bytes
     let mut field = [0u8; 1];
-    let bytes_read = cursor.read(&mut field)?;
 
     // Check that indeed 1 bytes were read
-    if bytes_read != 1
+    if cursor.read_exact(&mut field).is_err()
     {
         return io_error!(Other, "Could not read the next 1 bytes!");
     }
@@ -41,10 +40,9 @@ read_2_bytes
 {
     // Read in the 2 bytes
     let mut field = [0u8; 2];
-    let bytes_read = cursor.read(&mut field)?;
 
     // Check that indeed 2 bytes were read
-    if bytes_read != 2
+    if cursor.read_exact(&mut field).is_err()
     {
         return io_error!(Other, "Could not read the next 2 bytes!");
     }
@@ -64,10 +62,9 @@ read_3_bytes
 {
     // Read in the 3 bytes
     let mut field = [0u8; 3];
-    let bytes_read = cursor.read(&mut field)?;
 
     // Check that indeed 3 bytes were read
-    if bytes_read != 3
+    if cursor.read_exact(&mut field).is_err()
     {
         return io_error!(Other, "Could not read the next 3 bytes!");
     }
@@ -87,10 +84,9 @@ read_4_bytes
 {
     // Read in the 4 bytes
     let mut field = [0u8; 4];
-    let bytes_read = cursor.read(&mut field)?;
 
     // Check that indeed 4 bytes were read
-    if bytes_read != 4
+    if cursor.read_exact(&mut field).is_err()
     {
         return io_error!(Other, "Could not read the next 4 bytes!");
     }
@@ -110,10 +106,9 @@ read_8_bytes
 {
     // Read in the 8 bytes
     let mut field = [0u8; 8];
-    let bytes_read = cursor.read(&mut field)?;
 
     // Check that indeed 8 bytes were read
-    if bytes_read != 8
+    if cursor.read_exact(&mut field).is_err()
     {
         return io_error!(Other, "Could not read the next 8 bytes!");
     }
@@ -133,10 +128,9 @@ read_16_bytes
 {
     // Read in the 16 bytes
     let mut field = [0u8; 16];
-    let bytes_read = cursor.read(&mut field)?;
 
     // Check that indeed 16 bytes were read
-    if bytes_read != 16
+    if cursor.read_exact(&mut field).is_err()
     {
         return io_error!(Other, "Could not read the next 16 bytes!");
     }
-- 
2.43.0


From cc0fe9f5ad8c088781943a48e62c334882fc0d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 24/60] fix: PNG chunks read by several short reads and huge
 chunk lengths

---
 src/png/mod.rs  | 3 +--
 src/png/read.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index 623f9ce..8dbffdb 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -101,9 +101,8 @@ file_check_signature
     
     // Read & check the signature
     let mut signature_buffer = [0u8; 8];
-    let     bytes_read       = file.read(&mut signature_buffer)?;
 
-    if bytes_read != 8
+    if file.read_exact(&mut signature_buffer).is_err()
     {
         return io_error!(InvalidData, "Can't open PNG file - Can't read signature!");
     }
diff --git a/src/png/read.rs b/src/png/read.rs
index 715c949..f532d0d 100644
--- a/src/png/read.rs
+++ b/src/png/read.rs
@@ -50,8 +50,12 @@ read_chunk_data
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-    let mut chunk_data_buffer = vec![0u8; chunk_length];
-    let     bytes_read        = cursor.read(&mut chunk_data_buffer)?;
+    // The length comes from the file and must not be trusted for allocating
+    // memory up front
+    let mut chunk_data_buffer = Vec::new();
+    let     bytes_read        = cursor
+        .take(chunk_length as u64)
+        .read_to_end(&mut chunk_data_buffer)?;
     
     if bytes_read != chunk_length
     {
-- 
2.43.0


From 3b046a90a8e1fa00269d3fd0bb650384152e580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 25/60] fix: type detection when a read returns fewer bytes
 than requested

---
 src/filetype.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filetype.rs b/src/filetype.rs
index 6b1189a..3b16d4c 100644
--- a/src/filetype.rs
+++ b/src/filetype.rs
@@ -37,7 +37,8 @@ FileExtension
     {
         // Read first few bytes (32 bytes because I don't know any better)
         let mut buffer = [0; 32];
-        let Ok(n) = cursor.read(&mut buffer) else {
+        let mut start  = Vec::new();
+        let Ok(n) = cursor.take(32).read_to_end(&mut start) else {
             return None;
         };
 
@@ -46,6 +47,8 @@ FileExtension
             return None;
         }
 
+        buffer[..n].copy_from_slice(&start);
+
         match buffer {
             // PNG
             [0x89, 0x50, 0x4E, 0x47, ..] => {
-- 
2.43.0


From e2eb388a65513180d3fc5439b603002b63451a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 26/60] fix: limit the size of decompressed PNG text chunks

---
 src/png/text.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/png/text.rs b/src/png/text.rs
index ecbf03a..ec572ba 100644
--- a/src/png/text.rs
+++ b/src/png/text.rs
@@ -1,11 +1,15 @@
 // Copyright © 2025-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
-use miniz_oxide::inflate::decompress_to_vec_zlib;
+use miniz_oxide::inflate::decompress_to_vec_zlib_with_limit;
 use miniz_oxide::deflate::compress_to_vec_zlib;
 
 use crate::general_file_io::io_error;
 
+/// Upper limit for the size of decompressed text, to prevent a small chunk
+/// from using up all of the available memory
+const MAX_DECOMPRESSED_SIZE: usize = 32 * 1024 * 1024;
+
 /// This gets the keyword of a $TEXT chunk.
 /// Fortunately, this is the same for tEXt, zTXt and iTXt, as they all
 /// start with a keyword that is followed by a NUL separator.
@@ -63,8 +67,9 @@ get_data_from_text_chunk
             }
 
             // Decode zlib data
-            if let Ok(decompressed_data) = decompress_to_vec_zlib(
-                &chunk_data[data_start..]
+            if let Ok(decompressed_data) = decompress_to_vec_zlib_with_limit(
+                &chunk_data[data_start..],
+                MAX_DECOMPRESSED_SIZE
             )
             {
                 return Ok(decompressed_data);
@@ -110,8 +115,9 @@ get_data_from_text_chunk
             }
 
             // Decode zlib data
-            if let Ok(decompressed_data) = decompress_to_vec_zlib(
-                &chunk_data[data_start..]
+            if let Ok(decompressed_data) = decompress_to_vec_zlib_with_limit(
+                &chunk_data[data_start..],
+                MAX_DECOMPRESSED_SIZE
             )
             {
                 return Ok(decompressed_data);
-- 
2.43.0


From 55cc50bd017ce568c2a0f64275b683012cf2ca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 27/60] fix: keep the compression method when rewriting a zTXt
 chunk

---
 src/png/text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/png/text.rs b/src/png/text.rs
index ec572ba..5355936 100644
--- a/src/png/text.rs
+++ b/src/png/text.rs
@@ -173,6 +173,8 @@ construct_similar_with_new_data
                 );
             }
 
+            // Keep the compression method in front of the compressed data
+            new_chunk_data.push(0x00);
             new_chunk_data.extend(compress_to_vec_zlib(new_data, 8).iter());
         },
 
-- 
2.43.0


From d4b38976b37c1b6bbb570e692b8b05000389dd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 28/60] fix: treat PNG keywords as bytes as they need not be
 UTF-8

---
 src/png/mod.rs  | 12 ++++++------
 src/png/text.rs | 28 +++++++++++++---------------
 2 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index 8dbffdb..da31020 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -313,9 +313,9 @@ generic_read_metadata
                 if keyword.len() == RAW_PROFILE_TYPE_EXIF.len()
                 {
                     has_raw_profile_type_exif = keyword
-                        .bytes()
+                        .iter()
                         .zip(RAW_PROFILE_TYPE_EXIF.iter())
-                        .all(|(a,b)| a == *b);
+                        .all(|(a,b)| a == b);
                 }
 
                 if !has_raw_profile_type_exif
@@ -425,9 +425,9 @@ clear_metadata
                 if keyword.len() == RAW_PROFILE_TYPE_EXIF.len()
                 {
                     has_raw_profile_type_exif = keyword
-                        .bytes()
+                        .iter()
                         .zip(RAW_PROFILE_TYPE_EXIF.iter())
-                        .all(|(a,b)| a == *b);
+                        .all(|(a,b)| a == b);
                 }
 
                 // Compare to the "XML:com.adobe.xmp" string constant
@@ -435,9 +435,9 @@ clear_metadata
                 if keyword.len() == XML_COM_ADOBE_XMP.len()
                 {
                     has_xml_com_adobe_xmp = keyword
-                        .bytes()
+                        .iter()
                         .zip(XML_COM_ADOBE_XMP.iter())
-                        .all(|(a,b)| a == *b);
+                        .all(|(a,b)| a == b);
                 }
 
                 if has_xml_com_adobe_xmp
diff --git a/src/png/text.rs b/src/png/text.rs
index 5355936..755b2a1 100644
--- a/src/png/text.rs
+++ b/src/png/text.rs
@@ -18,7 +18,7 @@ get_keyword_from_text_chunk
 (
     chunk_data: &[u8]
 )
--> String
+-> Vec<u8>
 {
     let mut keyword_buffer = Vec::new();
     for character in chunk_data
@@ -26,7 +26,7 @@ get_keyword_from_text_chunk
         if *character == 0x00 { break; }
         keyword_buffer.push(*character);
     }
-    return String::from_utf8_lossy(&keyword_buffer).into_owned()
+    return keyword_buffer;
 }
 
 pub(crate) fn
@@ -152,9 +152,7 @@ construct_similar_with_new_data
 
     // The keyword and NUL will be needed in every cases:
     let     keyword        = get_keyword_from_text_chunk(old_chunk_data);
-    let mut new_chunk_data = keyword
-        .bytes()
-        .collect::<Vec<u8>>();
+    let mut new_chunk_data = keyword.clone();
     new_chunk_data.push(0x00);
 
     match chunk_name
@@ -193,9 +191,9 @@ construct_similar_with_new_data
             new_chunk_data.push(compression_method);
 
             // Add the language tag and translated keyword
-            new_chunk_data.extend(language_tag.bytes());
+            new_chunk_data.extend(language_tag.iter());
             new_chunk_data.push(0x00);
-            new_chunk_data.extend(translated_keyword.bytes());
+            new_chunk_data.extend(translated_keyword.iter());
             new_chunk_data.push(0x00);
 
             // Check compression
@@ -246,11 +244,11 @@ get_info_about_iTXt_chunk
     chunk_data:   &[u8]
 )
 -> (
-    u8,     // compression flag
-    u8,     // compression method
-    String, // keyword
-    String, // language tag
-    String, // translated keyword
+    u8,      // compression flag
+    u8,      // compression method
+    Vec<u8>, // keyword
+    Vec<u8>, // language tag
+    Vec<u8>, // translated keyword
 )
 {
     // Tells us where we currently are in the chunk data
@@ -311,8 +309,8 @@ get_info_about_iTXt_chunk
     return (
         compression_flag,
         compression_method,
-        String::from_utf8(keyword_buffer           ).unwrap_or_default(),
-        String::from_utf8(language_tag_buffer      ).unwrap_or_default(),
-        String::from_utf8(translated_keyword_buffer).unwrap_or_default()
+        keyword_buffer,
+        language_tag_buffer,
+        translated_keyword_buffer
     );
 }
\ No newline at end of file
-- 
2.43.0


From 579f4319620db905349f6ca32e929488155e2f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 29/60] fix: report incomplete PNG text chunks instead of
 panicking

---
 src/png/text.rs | 49 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/png/text.rs b/src/png/text.rs
index 755b2a1..5ae23ae 100644
--- a/src/png/text.rs
+++ b/src/png/text.rs
@@ -48,7 +48,7 @@ get_data_from_text_chunk
             // For this we take the keyword length and add 1 for the NUL byte
             let data_start = keyword_length + 1;
             
-            return Ok(chunk_data[data_start..].to_vec());
+            return Ok(get_text_after(chunk_data, data_start)?.to_vec());
         },
 
         "zTXt" => {
@@ -58,7 +58,7 @@ get_data_from_text_chunk
             let data_start = keyword_length + 2;
 
             // Check compression method
-            if chunk_data[keyword_length + 1] != 0x00
+            if chunk_data.get(keyword_length + 1) != Some(&0x00)
             {
                 return io_error!(
                     Other,
@@ -68,7 +68,7 @@ get_data_from_text_chunk
 
             // Decode zlib data
             if let Ok(decompressed_data) = decompress_to_vec_zlib_with_limit(
-                &chunk_data[data_start..],
+                get_text_after(chunk_data, data_start)?,
                 MAX_DECOMPRESSED_SIZE
             )
             {
@@ -91,7 +91,7 @@ get_data_from_text_chunk
                 _keyword,
                 language_tag,
                 translated_keyword,
-            ) = get_info_about_iTXt_chunk(chunk_data);
+            ) = get_info_about_iTXt_chunk(chunk_data)?;
 
             let data_start = keyword_length // keyword
                 + 3                         // NUL, compression flag & method
@@ -103,7 +103,7 @@ get_data_from_text_chunk
             if compression_flag == 0x00
             {
                 // No compression, simply return the data
-                return Ok(chunk_data[data_start..].to_vec());
+                return Ok(get_text_after(chunk_data, data_start)?.to_vec());
             }
             
             if compression_method != 0x00
@@ -116,7 +116,7 @@ get_data_from_text_chunk
 
             // Decode zlib data
             if let Ok(decompressed_data) = decompress_to_vec_zlib_with_limit(
-                &chunk_data[data_start..],
+                get_text_after(chunk_data, data_start)?,
                 MAX_DECOMPRESSED_SIZE
             )
             {
@@ -137,6 +137,24 @@ get_data_from_text_chunk
     }
 }
 
+/// The data of a text chunk starting at the given position. A chunk that ends 
+/// before that (e.g. as the NUL after the keyword is missing) is invalid.
+fn
+get_text_after
+(
+    chunk_data: &[u8],
+    start:      usize,
+)
+-> Result<&[u8], std::io::Error>
+{
+    return chunk_data.get(start..).ok_or_else(||
+        std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            "Incomplete text chunk!"
+        )
+    );
+}
+
 pub(crate) fn
 construct_similar_with_new_data
 (
@@ -163,7 +181,7 @@ construct_similar_with_new_data
 
         "zTXt" => {
             // Check compression method
-            if old_chunk_data[keyword.len() + 1] != 0x00
+            if old_chunk_data.get(keyword.len() + 1) != Some(&0x00)
             {
                 return io_error!(
                     Other,
@@ -184,7 +202,7 @@ construct_similar_with_new_data
                 _keyword,
                 language_tag,
                 translated_keyword,
-            ) = get_info_about_iTXt_chunk(old_chunk_data);
+            ) = get_info_about_iTXt_chunk(old_chunk_data)?;
 
             // Push compression information
             new_chunk_data.push(compression_flag);
@@ -243,14 +261,21 @@ get_info_about_iTXt_chunk
 (
     chunk_data:   &[u8]
 )
--> (
+-> Result<(
     u8,      // compression flag
     u8,      // compression method
     Vec<u8>, // keyword
     Vec<u8>, // language tag
     Vec<u8>, // translated keyword
-)
+), std::io::Error>
 {
+    // There must be a NUL byte after each of the three character strings
+    let keyword_end = get_keyword_from_text_chunk(chunk_data).len();
+    if chunk_data.iter().skip(keyword_end + 3).filter(|x| **x == 0).count() < 2
+    {
+        return io_error!(InvalidData, "Incomplete iTXt chunk!");
+    }
+
     // Tells us where we currently are in the chunk data
     let mut chunk_counter = 0;
 
@@ -306,11 +331,11 @@ get_info_about_iTXt_chunk
         }
     }
 
-    return (
+    return Ok((
         compression_flag,
         compression_method,
         keyword_buffer,
         language_tag_buffer,
         translated_keyword_buffer
-    );
+    ));
 }
\ No newline at end of file
-- 
2.43.0


From 4b5a1867e321888f63fbf207cd0f4b57ab1a4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 30/60] fix: report malformed EXIF profiles in PNG files
 instead of panicking

---
 src/png/mod.rs | 68 +++++++++-----------------------------------------
 1 file changed, 12 insertions(+), 56 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index da31020..99c7d55 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -782,64 +782,19 @@ decode_metadata_png
     }
 
     // Now remove the first element until the exif header or endian information 
-    // is found.
+    // is found (the EXIF_HEADER might be missing, see issue #54).
     // Store the popped elements to get the size information
-    let mut exif_header_found = false;
-    let mut endian_info_found = false;
     let mut pop_storage: Vec<u8> = Vec::new();
 
-    while !exif_header_found && !endian_info_found
+    loop
     {
-        let mut counter = 0;
-        for header_value in &EXIF_HEADER
-        {
-            if *header_value != exif_all[counter]
-            {
-                break;
-            }
-            counter += 1;
-        }
-
-        exif_header_found = counter == EXIF_HEADER.len();
+        let starts_with = |pattern: &[u8]| exif_all.iter()
+            .take(pattern.len())
+            .eq(pattern.iter());
 
-        if exif_header_found
-        {
-            break;
-        }
-
-        counter = 0;
-
-        // But what if the EXIF_HEADER is missing and we are directly starting
-        // with the endian information? See issue #54
-        for endian_info in &LITTLE_ENDIAN_INFO
-        {
-            if *endian_info != exif_all[counter]
-            {
-                break;
-            }
-            counter += 1;
-        }
-
-        endian_info_found = counter == LITTLE_ENDIAN_INFO.len();
-
-        if endian_info_found
-        {
-            break;
-        }
-
-        // And the same check for big endian
-        for endian_info in &BIG_ENDIAN_INFO
-        {
-            if *endian_info != exif_all[counter]
-            {
-                break;
-            }
-            counter += 1;
-        }
-
-        endian_info_found = counter == BIG_ENDIAN_INFO.len();
-
-        if endian_info_found
+        if starts_with(&EXIF_HEADER) 
+        || starts_with(&LITTLE_ENDIAN_INFO) 
+        || starts_with(&BIG_ENDIAN_INFO)
         {
             break;
         }
@@ -863,8 +818,6 @@ decode_metadata_png
     //    that will now get extracted
     // Consider this part optional as it might be removed in the future and
     // isn't strictly necessary and just for validating the data we get
-    assert!(!pop_storage.is_empty());
-
     // Using the encode_byte function re-encode the bytes regarding the size
     // information and construct its value using decimal based shifting
     // Example: 153 = 0
@@ -889,7 +842,10 @@ decode_metadata_png
         given_exif_len += ones_place *  1 * 10_u64.pow((2 * i) as u32);
     }
 
-    assert_eq!(given_exif_len, exif_all.len() as u64);
+    if given_exif_len != exif_all.len() as u64
+    {
+        return io_error!(InvalidData, "Wrong EXIF size info in PNG!");
+    }
     // End optional part
 
     return Ok(Vec::from(exif_all));
-- 
2.43.0


From f267c2627813deac5fa5e3a1f891f93c4428405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 31/60] fix: other elements within an EXIF property of XMP data

---
 src/xmp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xmp.rs b/src/xmp.rs
index 707ece2..576f8bb 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -40,11 +40,12 @@ remove_exif_from_xmp
             Ok(Event::Start(ref event)) => {
                 let event_name = String::from_utf8(event.name().0.to_vec())?;
 
-                if event_name.starts_with("exif:")
+                if event_name.starts_with("exif:") || skip_depth > 0
                 {
+                    // Also applies to any other element in a skipped one
                     skip_depth += 1;
                 }
-                else if skip_depth == 0
+                else
                 {
                     writer.write_event(Event::Start(get_exif_filtered_event(event)?))?;
                 }
-- 
2.43.0


From a342ed38231cddd3f5525a6363b08d3b68c9b2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 32/60] fix: don't cut off XMP data that can't be parsed

---
 src/xmp.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/xmp.rs b/src/xmp.rs
index 576f8bb..1868e93 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -1,6 +1,7 @@
 // Copyright © 2025 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
+use quick_xml::events::attributes::Attribute;
 use quick_xml::events::BytesStart;
 use quick_xml::events::Event;
 use quick_xml::Reader;
@@ -77,7 +78,10 @@ remove_exif_from_xmp
             }
 
             Ok(Event::Eof) => {
-                assert_eq!(skip_depth, 0);
+                if skip_depth != 0
+                {
+                    return Err("Unexpected end of XMP data".into());
+                }
                 break;
             }
 
@@ -108,7 +112,7 @@ remove_exif_from_xmp
                     reader.buffer_position(), 
                     error_message
                 );
-                break;
+                return Err(error_message.into());
             }
         };
 
@@ -131,7 +135,8 @@ get_exif_filtered_event<'a>
 
     new_event.extend_attributes(
         event.attributes()
-            .filter_map(Result::ok)
+            .collect::<Result<Vec<Attribute>, _>>()?
+            .into_iter()
             .filter(|attribute| 
                 {
                     if let Ok(key) = std::str::from_utf8(
-- 
2.43.0


From 2fb5d800a9ba618ca372ad504382f28bf417ed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 33/60] fix: double quotes within XMP attribute values

---
 src/xmp.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/xmp.rs b/src/xmp.rs
index 1868e93..2ba175b 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -148,6 +148,20 @@ get_exif_filtered_event<'a>
                         true
                     }
                 }
+            )
+            .map(|mut attribute|
+                {
+                    // Values get written within double quotes, so any such
+                    // in a value that is in single quotes must be escaped
+                    if let Ok(value) = std::str::from_utf8(&attribute.value)
+                    {
+                        attribute.value = value
+                            .replace('"', "&quot;")
+                            .into_bytes()
+                            .into();
+                    }
+                    attribute
+                }
             ),
     );
 
-- 
2.43.0


From 4f1090468e56db40fbf584de8f43ee3561b66ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 34/60] fix: leave PNG data unchanged if clearing or writing
 fails

---
 src/png/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index 99c7d55..36ec341 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -389,7 +389,9 @@ clear_metadata
     let parse_png_result = vec_parse_png(file_buffer)?;
 
     // Parsed PNG is Ok to use - Open the file and go through the chunks
-    let mut cursor = Cursor::new(file_buffer);
+    // Work on a copy so that the data stays as it is in case of an error
+    let mut cleared_buffer = file_buffer.clone();
+    let mut cursor         = Cursor::new(&mut cleared_buffer);
 
     // Skip the PNG file header (8 bytes)
     let mut remove_start;
@@ -475,6 +477,8 @@ clear_metadata
 
     }
 
+    *file_buffer = cleared_buffer;
+
     return Ok(());
 }
 
@@ -563,13 +567,19 @@ write_metadata
     // First clear the existing metadata
     // This also parses the PNG and checks its validity, so it is safe to
     // assume that is, in fact, a usable PNG file
-    clear_metadata(file_buffer)?;
+    let mut new_buffer = file_buffer.clone();
+    clear_metadata(&mut new_buffer)?;
 
     // Parsed PNG is Ok to use - Create a cursor for writing
-    let mut cursor = Cursor::new(file_buffer);
+    let mut cursor = Cursor::new(&mut new_buffer);
 
     // Call the generic write function
-    return generic_write_metadata(&mut cursor, metadata);
+    generic_write_metadata(&mut cursor, metadata)?;
+
+    // Everything worked, so now replace the data
+    *file_buffer = new_buffer;
+
+    return Ok(());
 }
 
 pub(crate) fn
-- 
2.43.0


From 7a0fb317204664c2901ee152e2a05b090312c45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 35/60] fix: refuse to write to a PNG that does not start with
 IHDR

---
 src/png/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index 36ec341..2d1d6e3 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -676,9 +676,13 @@ generic_write_metadata
 
     let mut IHDR_length = 0u32;
 
-    if let Ok(chunks) = generic_parse_png(cursor)
+    if let Some(first_chunk) = generic_parse_png(cursor)?.first()
     {
-        IHDR_length = chunks[0].length();
+        if first_chunk.as_string() != "IHDR"
+        {
+            return io_error!(InvalidData, "PNG does not start with IHDR!");
+        }
+        IHDR_length = first_chunk.length();
     }
 
     // Encode the data specifically for PNG and open the image file
-- 
2.43.0


From 1c4faae0f0d9375620c2395681797a13d3fb2e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 36/60] fix: don't empty a PNG file before writing it

---
 src/png/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index 2d1d6e3..777b2ee 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -23,6 +23,7 @@ use text::get_data_from_text_chunk;
 
 use crate::general_file_io::io_error;
 use crate::general_file_io::open_read_file;
+use crate::general_file_io::open_write_file;
 use crate::general_file_io::EXIF_HEADER;
 use crate::general_file_io::LITTLE_ENDIAN_INFO;
 use crate::general_file_io::BIG_ENDIAN_INFO;
@@ -366,11 +367,9 @@ file_clear_metadata
 
     // Write the file
     // Possible to optimize further by returning the purged bytestream itself?
-    let mut file = std::fs::OpenOptions::new()
-        .write(true)
-        .truncate(true)
-        .open(path)?;
+    let mut file = open_write_file(path)?;
     file.write_all(&file_buffer)?;
+    file.set_len(file_buffer.len() as u64)?;
 
     return Ok(());
 }
@@ -601,11 +600,9 @@ file_write_metadata
 
     // Write the file
     // Possible to optimize further by returning the purged bytestream itself?
-    let mut file = std::fs::OpenOptions::new()
-        .write(true)
-        .truncate(true)
-        .open(path)?;
+    let mut file = open_write_file(path)?;
     file.write_all(&file_buffer)?;
+    file.set_len(file_buffer.len() as u64)?;
 
     return Ok(());
 }
-- 
2.43.0


From 0be3754d42412ac78f06213e2d204f31591d300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 37/60] fix: WebP chunks read by several short reads and huge
 chunk lengths

---
 src/webp/file.rs | 34 +++++++++++++++++-----------------
 src/webp/vec.rs  | 30 +++++++++++++++---------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 371c678..b3b0286 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -35,9 +35,8 @@ check_signature
 
     // Get the first 12 bytes that are required for the following checks
     let mut first_12_bytes = [0u8; 12];
-    let     bytes_read     = file.read(&mut first_12_bytes)?;
 
-    if bytes_read != 12
+    if file.read_exact(&mut first_12_bytes).is_err()
     {
         return io_error!(InvalidData, "Can't open WebP file - Can't read & check signature!");
     }
@@ -67,25 +66,24 @@ get_next_chunk
 {
     // Read the start of the chunk
     let mut chunk_start = [0u8; 8];
-    let mut bytes_read = file.read(&mut chunk_start)?;
 
-    // Check that indeed 8 bytes were read
-    if bytes_read != 8
-    {
-        return io_error!(UnexpectedEof, "Could not read start of chunk");
-    }
+    // Results in an UnexpectedEof error if there aren't 8 bytes left
+    file.read_exact(&mut chunk_start)?;
 
     // Construct name of chunk and its length
     let chunk_name = String::from_utf8(chunk_start[0..4].to_vec());
-    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)?;
+    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)? as u64;
 
     // Account for the possible padding byte
     chunk_length += chunk_length % 2;
 
     // Read RIFF chunk data
-    let mut chunk_data_buffer = vec![0u8; chunk_length as usize];
-    bytes_read = file.read(&mut chunk_data_buffer)?;
-    if bytes_read != chunk_length as usize
+    // The length comes from the file, so don't allocate memory up front
+    let mut chunk_data_buffer = Vec::new();
+    let     bytes_read        = file
+        .take(chunk_length)
+        .read_to_end(&mut chunk_data_buffer)?;
+    if bytes_read as u64 != chunk_length
     {
         return io_error!(
             Other, 
@@ -236,7 +234,7 @@ check_exif_in_file
     let mut file = check_signature(path)?;
     let mut flag_buffer = vec![0u8; 4usize];
     file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    if file.read(&mut flag_buffer)? != 4
+    if file.read_exact(&mut flag_buffer).is_err()
     {
         return io_error!(Other, "Could not read flags of VP8X chunk!");
     }
@@ -278,7 +276,7 @@ read_metadata
     loop
     {
         // Read the chunk type into the buffer
-        if file.read(&mut header_buffer)? != 4
+        if file.read_exact(&mut header_buffer).is_err()
         {
             return io_error!(Other, "Could not read chunk type while traversing WebP file!");
         }
@@ -315,8 +313,10 @@ read_metadata
         if chunk_type.to_lowercase() == EXIF_CHUNK_HEADER.to_lowercase()
         {
             // Read the EXIF chunk's data into a buffer
-            let mut payload_buffer = vec![0u8; chunk_size];
-            let     bytes_read     = file.read(&mut payload_buffer)?;
+            let mut payload_buffer = Vec::new();
+            let     bytes_read     = file
+                .take(chunk_size as u64)
+                .read_to_end(&mut payload_buffer)?;
 
             if bytes_read != chunk_size
             {
@@ -529,7 +529,7 @@ set_exif_flag
     // So, read in the flags and set the EXIF flag according to the given bool
     let mut flag_buffer = vec![0u8; 4usize];
     file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    if file.read(&mut flag_buffer)? != 4
+    if file.read_exact(&mut flag_buffer).is_err()
     {
         return io_error!(Other, "Could not read flags of VP8X chunk!");
     }
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 129bcf9..98e1c28 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -57,25 +57,23 @@ get_next_chunk
     // Read the start of the chunk
     let mut chunk_start = [0u8; 8];
 
-    let mut bytes_read = cursor.read(&mut chunk_start)?;
-
-    // Check that indeed 8 bytes were read
-    if bytes_read != 8
-    {
-        return io_error!(UnexpectedEof, "Could not read start of chunk");
-    }
+    // Results in an UnexpectedEof error if there aren't 8 bytes left
+    cursor.read_exact(&mut chunk_start)?;
 
     // Construct name of chunk and its length
     let chunk_name = String::from_utf8(chunk_start[0..4].to_vec());
-    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)?;
+    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)? as u64;
 
     // Account for the possible padding byte
     chunk_length += chunk_length % 2;
 
     // Read RIFF chunk data
-    let mut chunk_data_buffer = vec![0u8; chunk_length as usize];
-    bytes_read = cursor.read(&mut chunk_data_buffer)?;
-    if bytes_read != chunk_length as usize
+    // The length comes from the file, so don't allocate memory up front
+    let mut chunk_data_buffer = Vec::new();
+    let     bytes_read        = cursor
+        .take(chunk_length)
+        .read_to_end(&mut chunk_data_buffer)?;
+    if bytes_read as u64 != chunk_length
     {
         return io_error!(
             Other, 
@@ -226,7 +224,7 @@ check_exif_in_file
     let mut cursor = check_signature(file_buffer)?;
     let mut flag_buffer = vec![0u8; 4usize];
     cursor.set_position(12u64 + 4u64 + 4u64);
-    if cursor.read(&mut flag_buffer)? != 4
+    if cursor.read_exact(&mut flag_buffer).is_err()
     {
         return io_error!(Other, "Could not read flags of VP8X chunk!");
     }
@@ -268,7 +266,7 @@ read_metadata
     loop
     {
         // Read the chunk type into the buffer
-        if cursor.read(&mut header_buffer)? != 4
+        if cursor.read_exact(&mut header_buffer).is_err()
         {
             return io_error!(Other, "Could not read chunk type while traversing WebP file!");
         }
@@ -302,8 +300,10 @@ read_metadata
         if chunk_type.to_lowercase() == EXIF_CHUNK_HEADER.to_lowercase()
         {
             // Read the EXIF chunk's data into a buffer
-            let mut payload_buffer = vec![0u8; chunk_size];
-            let     bytes_read     = cursor.read(&mut payload_buffer)?;
+            let mut payload_buffer = Vec::new();
+            let     bytes_read     = cursor
+                .take(chunk_size as u64)
+                .read_to_end(&mut payload_buffer)?;
 
             if bytes_read != chunk_size
             {
-- 
2.43.0


From 251707f6938331c52b9d6fb8e1ec56cb582c652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 38/60] fix: WebP EXIF chunks that start with the EXIF header

---
 src/webp/file.rs | 6 ++++++
 src/webp/vec.rs  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index b3b0286..458b5ae 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -331,6 +331,12 @@ read_metadata
             // Otherwise the result would directly start with the Endianness
             // information, leading to a failed EXIF header signature check in 
             // the function `decode_metadata_general`
+            // Some software already includes this header in the chunk
+            if payload_buffer.starts_with(&EXIF_HEADER)
+            {
+                return Ok(payload_buffer);
+            }
+
             let mut raw_exif_data = EXIF_HEADER.to_vec();
             raw_exif_data.append(&mut payload_buffer);
 
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 98e1c28..6b0fca0 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -318,6 +318,12 @@ read_metadata
             // Otherwise the result would directly start with the Endianness
             // information, leading to a failed EXIF header signature check in 
             // the function `decode_metadata_general`
+            // Some software already includes this header in the chunk
+            if payload_buffer.starts_with(&EXIF_HEADER)
+            {
+                return Ok(payload_buffer);
+            }
+
             let mut raw_exif_data = EXIF_HEADER.to_vec();
             raw_exif_data.append(&mut payload_buffer);
 
-- 
2.43.0


From 3e55ce72d6f1799283e3cb9ada6d7659157e2313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 39/60] fix: use the same code for WebP files as for WebP data
 in memory

---
 src/webp/file.rs | 378 +++--------------------------------------------
 src/webp/vec.rs  |   2 +-
 2 files changed, 23 insertions(+), 357 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 458b5ae..a208d3f 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -31,7 +31,7 @@ check_signature
 )
 -> Result<File, std::io::Error>
 {
-    let mut file = open_write_file(path)?;
+    let mut file = open_read_file(path)?;
 
     // Get the first 12 bytes that are required for the following checks
     let mut first_12_bytes = [0u8; 12];
@@ -359,293 +359,33 @@ read_metadata
 
 
 
-fn
-update_file_size_information
-(
-    file:  &mut File,
-    delta: i32
-)
--> Result<(), std::io::Error>
-{
-    // Note from the documentation:
-    // As the size of any chunk is even, the size given by the RIFF header is also even.
-
-    // Update the file size information, first by reading in the current value...
-    file.seek(SeekFrom::Start(4))?;
-    let mut file_size_buffer = [0u8; 4];
-
-    // ...converting it to u32 representation...
-    let bytes_read = file.read(&mut file_size_buffer)?;
-
-    if bytes_read != 4
-    {
-        return io_error!(Other, "Could not read file size information from WebP file!");
-    }
-
-    let old_file_size = from_u8_vec_res_macro!(u32, &file_size_buffer, &Endian::Little)?;
-
-    // ...adding the delta byte count (and performing some checks)...
-    if delta < 0
-    {
-        assert!(old_file_size as i32 > delta);
-    }
-    let new_file_size = (old_file_size as i32 + delta) as u32;
-
-    assert!(old_file_size % 2 == 0);
-    assert!(new_file_size % 2 == 0);
-
-    // ...and writing back to file...
-    file.seek(SeekFrom::Start(4))?;
-    file.write_all(&to_u8_vec_macro!(u32, &new_file_size, &Endian::Little))?;
-
-    Ok(())
-}
-
-
-
-fn
-convert_to_extended_format
+pub(crate) fn
+clear_metadata
 (
-    file: &mut File
+    path: &Path
 )
 -> Result<(), std::io::Error>
 {
-    // Start by getting the first chunk of the WebP file
-    file.seek(SeekFrom::Start(12))?;
-    let first_chunk = get_next_chunk(file)?;
-
-    // Find out what simple type of WebP file we are dealing with
-    let (width, height) = match first_chunk.descriptor().header().as_str()
-    {
-        "VP8 " 
-            => get_dimension_info_from_vp8_chunk(first_chunk.payload()),
-        "VP8L"
-            => get_dimension_info_from_vp8l_chunk(first_chunk.payload()),
-        _ 
-            => io_error!(Other, "Expected either 'VP8 ' or 'VP8L' chunk for conversion!")
-    }?;
-
-    let width_vec  = to_u8_vec_macro!(u32, &width,  &Endian::Little);
-    let height_vec = to_u8_vec_macro!(u32, &height, &Endian::Little);
-
-    let mut vp8x_chunk = vec![
-        0x56, 0x50, 0x38, 0x58, // ASCII chars "V", "P", "8", "X"                  -> 4 byte
-        0x0A, 0x00, 0x00, 0x00, // size of this chunk (32 + 24 + 24 bit = 10 byte) -> 4 byte
-        0x00, 0x00, 0x00, 0x00, // Flags and reserved area                         -> 4 byte
-    ];
-
-    // Add the two 24 bits for width and height information
-    for byte in  width_vec.iter().take(3) { vp8x_chunk.push(*byte); }
-    for byte in height_vec.iter().take(3) { vp8x_chunk.push(*byte); }
-
-    // Write the VP8X chunk, first by reading the file (except for the header)
-    // into a buffer...
-    let mut buffer = Vec::new();
-    file.seek(SeekFrom::Start(12u64))?;
-    file.read_to_end(&mut buffer)?;
-
-    // ...actually writing the VP8X chunk data...
-    file.seek(SeekFrom::Start(12u64))?;
-    if file.write(&vp8x_chunk)? != vp8x_chunk.len()
-    {
-        return io_error!(Other, "Could not write entire VP8X chunk data!");
-    }
-
-    // ...and writing back the file contents
-    if file.write(&buffer)? != buffer.len()
-    {
-        return io_error!(Other, "Could not write back entire WebP file data!");
-    }
-
-    // Finally, update the file size information
-    update_file_size_information(file, 18)?;
-
-    Ok(())
-}
-
-
-
-fn
-get_dimension_info_from_vp8l_chunk
-(
-    payload: &[u8],
-)
--> Result<(u32, u32), std::io::Error>
-{
-    // Get the 4 bytes containing the dimension information
-    // (although we only need 28 bits)
-    // Starting at byte 1 instead of 0 due to the 0x2F byte
-    // See: https://developers.google.com/speed/webp/docs/webp_lossless_bitstream_specification#3_riff_header
-    let width_height_info_buffer = payload[1..5].to_vec();
-    
-    // Convert to a single u32 number for bit-mask operations
-    let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
-    
-    let mut width  = 0;
-    let mut height = 0;
+    // Load the entire file into memory and clear the metadata there, so that 
+    // the file is left as it is in case this fails
+    let mut file_buffer = std::fs::read(path)?;
+    super::vec::clear_metadata(&mut file_buffer)?;
 
-    // Get the first 14 bit to construct the width
-    for bit_index in 0..14
-    {
-        width  |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    // Get the next 14 bit to construct the height
-    for bit_index in 14..28
-    {
-        height |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    return Ok((width, height));
+    // Write back the result
+    return write_back(path, &file_buffer);
 }
 
-
-
 fn
-set_exif_flag
+write_back
 (
-    path:  &Path,
-    exif_flag_value: bool
+    path:        &Path,
+    file_buffer: &[u8]
 )
 -> Result<(), std::io::Error>
 {
-    // Parse the WebP file - if this fails, we surely can't read any metadata
-    let parsed_webp_result = parse_webp(path)?;
-
-    // Open the file for further processing
-    let mut file = check_signature(path)?;
-
-    // Next, check if this is an Extended File Format WebP file
-    // In this case, the first Chunk SHOULD have the type "VP8X"
-    // Otherwise we have to create the VP8X chunk!
-    if let Some(first_chunk) = parsed_webp_result.first()
-    {
-        // Compare the chunk descriptor header and call chunk creator if required
-        if first_chunk.header().to_lowercase() != VP8X_HEADER.to_lowercase()
-        {
-            convert_to_extended_format(&mut file)?;
-        }
-    }
-    else
-    {
-        return io_error!(Other, "Could not read first chunk descriptor of WebP file!");
-    }	
-
-    // At this point we know that we have a VP8X chunk at the expected location
-    // So, read in the flags and set the EXIF flag according to the given bool
-    let mut flag_buffer = vec![0u8; 4usize];
-    file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    if file.read_exact(&mut flag_buffer).is_err()
-    {
-        return io_error!(Other, "Could not read flags of VP8X chunk!");
-    }
-
-    // Mask the old flag by either or-ing with 1 at the EXIF flag position for
-    // setting it to true, or and-ing with 1 everywhere but the EXIF flag pos
-    // to set it to false
-    flag_buffer[0] = if exif_flag_value
-    {
-        flag_buffer[0] | 0x08
-    }
-    else
-    {
-        flag_buffer[0] & 0b11110111
-    };
-
-    // Write flag buffer back to the file
-    file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    file.write_all(&flag_buffer)?;
-
-    Ok(())
-}
-
-
-
-pub(crate) fn
-clear_metadata
-(
-    path: &Path
-)
--> Result<(), std::io::Error>
-{
-    // Check the file signature, parse it, check that it has a VP8X chunk and
-    // the EXIF flag is set there
-    let (mut file, parse_webp_result) = match check_exif_in_file(path) 
-    {
-        Ok((file, parse_webp_result)) => (file, parse_webp_result),
-        Err(e) => {
-            match e.to_string().as_str()
-            {
-                "No EXIF chunk according to VP8X flags!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8L!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8 !"
-                    => return Ok(()),
-                _
-                    => return Err(e)
-            }
-        }
-    };
-
-    // Compute a delta of how much the file size information has to change
-    let mut delta = 0i32;
-
-    // Skip the WEBP signature
-    file.seek(std::io::SeekFrom::Current(4i64))?;
-
-    for parsed_chunk in parse_webp_result
-    {
-        // At the start of each iteration, the file cursor is at the start of
-        // the fourCC section of a chunk
-
-        // Compute how many bytes this chunk has
-        let parsed_chunk_byte_count = 
-            4u64                            // fourCC section of EXIF chunk
-            + 4u64                          // size information of EXIF chunk
-            + parsed_chunk.len() as u64     // actual size of EXIF chunk data
-            + parsed_chunk.len() as u64 % 2 // accounting for possible padding byte
-        ;
-
-        // Not an EXIF chunk, seek to next one and continue
-        if parsed_chunk.header().to_lowercase() != EXIF_CHUNK_HEADER.to_lowercase()
-        {
-            file.seek(std::io::SeekFrom::Current(parsed_chunk_byte_count as i64))?;
-            continue;
-        }
-
-        // Get the current size of the file in bytes
-        let old_file_byte_count = file.metadata()?.len();
-
-        // Get a backup of the current cursor position
-        let exif_chunk_start_cursor_position = SeekFrom::Start(file.stream_position()?);
-
-        // Skip the EXIF chunk ...
-        file.seek(std::io::SeekFrom::Current(parsed_chunk_byte_count as i64))?;
-
-        // ...and copy everything afterwards into a buffer...
-        let mut buffer = Vec::new();
-        file.read_to_end(&mut buffer)?;
-
-        // ...and seek back to where the EXIF chunk is located...
-        file.seek(exif_chunk_start_cursor_position)?;
-
-        // ...and overwrite the EXIF chunk...
-        file.write_all(&buffer)?;
-
-        // ...and finally update the size of the file
-        file.set_len(old_file_byte_count - parsed_chunk_byte_count)?;
-
-        // Additionally, update the size information that gets written to the 
-        // file header after this loop
-        delta -= parsed_chunk_byte_count as i32;
-    }
-
-    // Update file size information
-    update_file_size_information(&mut file, delta)?;
-    
-    // Set the flags in the VP8X chunk. First, read in the current flags
-    set_exif_flag(path, false)?;
+    let mut file = open_write_file(path)?;
+    file.write_all(file_buffer)?;
+    file.set_len(file_buffer.len() as u64)?;
 
     return Ok(());
 }
@@ -664,91 +404,17 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Clear the metadata from the file and return if this results in an error
-    clear_metadata(path)?;
+    // Load the entire file into memory and write the metadata there, so that
+    // the file is left as it is in case this fails
+    let mut file_buffer = std::fs::read(path)?;
+    super::vec::write_metadata(&mut file_buffer, metadata)?;
 
-    // Encode the general metadata format to WebP specifications
-    let encoded_metadata = encode_metadata_webp(&metadata.encode()?);
-
-    // Open the file...
-    let mut file = check_signature(path)?;
-
-    // ...and find a location where to put the EXIF chunk
-    // This is done by requesting a chunk descriptor as long as we find a chunk
-    // that is both known and should be located *before* the EXIF chunk
-    let pre_exif_chunks = [
-        "VP8X",
-        "VP8",
-        "VP8L",
-        "ICCP",
-        "ANIM"
-    ];
-
-    loop
-    {
-        // Request a chunk descriptor. If this fails, check the error 
-        // Depending on its type, either continue normally or return it
-        let chunk_descriptor_result = get_next_chunk_descriptor(&mut file);
-
-        match chunk_descriptor_result
-        {
-            Ok(chunk_descriptor) => {
-                let mut chunk_type_found_in_pre_exif_chunks = false;
-
-                // Check header of chunk descriptor against any of the known chunks
-                // that should come before the EXIF chunk
-                for pre_exif_chunk in &pre_exif_chunks
-                {
-                    chunk_type_found_in_pre_exif_chunks |= pre_exif_chunk.to_lowercase() == chunk_descriptor.header().to_lowercase();
-                }
-
-                if !chunk_type_found_in_pre_exif_chunks
-                {
-                    break;
-                }
-            },
-            Err(e) => {
-                match e.kind()
-                {
-                    std::io::ErrorKind::UnexpectedEof
-                        => break, // No further chunks, place EXIF chunk here
-                    _
-                        => return Err(e)
-                }
-            }
-        }
-    }
-
-    // Next, read remaining file into a buffer...
-    let current_file_cursor = SeekFrom::Start(file.stream_position()?);
-    let mut read_buffer = Vec::new();
-    file.read_to_end(&mut read_buffer)?;
-
-    // ...and write the EXIF chunk at the previously found location...
-    file.seek(current_file_cursor)?;
-    file.write_all(&encoded_metadata)?;
-
-    // ...and writing back the remaining file content
-    file.write_all(&read_buffer)?;
-
-    // Update the file size information by adding the byte count of the EXIF chunk
-    // (Note: Due to  the WebP specific encoding function, this vector already
-    // contains the EXIF header characters and size information, as well as the
-    // possible padding byte. Therefore, simply taking the length of this
-    // vector takes their byte count also into account and no further values
-    // need to be added)
-    update_file_size_information(&mut file, encoded_metadata.len() as i32)?;
-
-    // Finally, set the EXIF flag
-    set_exif_flag(path, true)?;
-
-    return Ok(());
+    // Write back the result
+    return write_back(path, &file_buffer);
 }
 
 
 
-
-
 #[cfg(test)]
 mod tests 
 {
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 6b0fca0..2ef6e94 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -403,7 +403,7 @@ convert_to_extended_format
     let (width, height) = match first_chunk.descriptor().header().as_str()
     {
         "VP8 "
-            => {log::debug!("VP8 !"); io_error!(Other, "Conversion from Simple File Format with 'VP8' chunk to Extended File Format not yet implemented!") },
+            => get_dimension_info_from_vp8_chunk(first_chunk.payload()),
         "VP8L"
             => get_dimension_info_from_vp8l_chunk(first_chunk.payload()),
         _ 
-- 
2.43.0


From 37d6bcb7638ade579a4a2a447eecb85f06b8f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 40/60] fix: clearing EXIF chunks from WebP data

---
 src/webp/vec.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 2ef6e94..1c10365 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -524,17 +524,15 @@ clear_metadata
 {
     // Check the file signature, parse it, check that it has a VP8X chunk and
     // the EXIF flag is set there
-    let (mut cursor, parse_webp_result) = match check_exif_in_file(file_buffer) 
+    // An EXIF chunk without this flag gets removed as well
+    let parse_webp_result = match check_exif_in_file(file_buffer) 
     {
-        Ok((_file, parse_webp_result)) => (
-            Cursor::new(file_buffer), 
-            parse_webp_result
-        ),
+        Ok((_file, parse_webp_result)) => parse_webp_result,
         Err(e) => {
             match e.to_string().as_str()
             {
                 "No EXIF chunk according to VP8X flags!"
-                    => return Ok(()),
+                    => parse_webp(file_buffer)?,
                 "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8L!"
                     => return Ok(()),
                 "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8 !"
@@ -545,11 +543,15 @@ clear_metadata
         }
     };
 
+    // Work on a copy so that the data stays as it is in case of an error
+    let mut cleared_buffer = file_buffer.clone();
+    let mut cursor         = Cursor::new(&mut cleared_buffer);
+
     // Compute a delta of how much the file size information has to change
     let mut delta = 0i32;
 
-    // Skip the WEBP signature
-    cursor.set_position(4);
+    // Skip the RIFF signature, the file size and the WEBP signature
+    cursor.set_position(12);
 
     for parsed_chunk in parse_webp_result
     {
@@ -587,6 +589,8 @@ clear_metadata
     // Set the flags in the VP8X chunk. First, read in the current flags
     set_exif_flag(&mut cursor, false)?;
 
+    *file_buffer = cleared_buffer;
+
     return Ok(());
 }
 
-- 
2.43.0


From dbf237ac37bd5848031e26667277e4421fa742d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 41/60] fix: where the EXIF chunk gets inserted into WebP data

---
 src/webp/vec.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 1c10365..5131707 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -609,7 +609,9 @@ write_metadata
 -> Result<(), std::io::Error>
 {
     // Clear the metadata from the file and return if this results in an error
-    clear_metadata(file_buffer)?;
+    // Work on a copy so that the data stays as it is in that case
+    let mut new_buffer = file_buffer.clone();
+    clear_metadata(&mut new_buffer)?;
 
     // Encode the general metadata format to WebP specifications
     let mut encoded_metadata = encode_metadata_webp(&metadata.encode()?);
@@ -620,10 +622,12 @@ write_metadata
     // that is both known and should be located *before* the EXIF chunk
     let pre_exif_chunks = [
         "VP8X",
-        "VP8",
+        "VP8 ",
         "VP8L",
         "ICCP",
-        "ANIM"
+        "ANIM",
+        "ANMF",
+        "ALPH"
     ];
 
     // Clippy wrongly needs this allowance, otherwise it states that this call
@@ -633,10 +637,15 @@ write_metadata
     // when calling insert_multiple_at.
     // I guess there is a less messy solution to this?
     #[allow(clippy::useless_asref)]
-    let mut read_cursor = Cursor::new(file_buffer.as_ref());
+    let mut read_cursor = Cursor::new(new_buffer.as_ref());
+    read_cursor.set_position(12);
+
+    let mut insert_position;
 
     loop
     {
+        insert_position = read_cursor.position() as usize;
+
         // Request a chunk descriptor. If this fails, check the error 
         // Depending on its type, either continue normally or return it
         let chunk_descriptor_result = get_next_chunk_descriptor(&mut read_cursor);
@@ -671,7 +680,7 @@ write_metadata
     }
 
     // Write the EXIF chunk at the found location
-    insert_multiple_at(file_buffer, read_cursor.position() as usize, &mut encoded_metadata);
+    insert_multiple_at(&mut new_buffer, insert_position, &mut encoded_metadata);
 
     // Update the file size information by adding the byte count of the EXIF chunk
     // (Note: Due to  the WebP specific encoding function, this vector already
@@ -679,11 +688,13 @@ write_metadata
     // possible padding byte. Therefore, simply taking the length of this
     // vector takes their byte count also into account and no further values
     // need to be added)
-    let mut write_cursor = Cursor::new(file_buffer);
+    let mut write_cursor = Cursor::new(&mut new_buffer);
     update_file_size_information(&mut write_cursor, encoded_metadata_len)?;
 
     // Finally, set the EXIF flag
     set_exif_flag(&mut write_cursor, true)?;
 
+    *file_buffer = new_buffer;
+
     return Ok(());
 }
-- 
2.43.0


From 7898ca445a6ba44a39ea1d5cd900641b3a2c07ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 42/60] fix: report invalid sizes in WebP data instead of
 panicking

---
 src/webp/vec.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 5131707..ee1cddf 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -364,14 +364,13 @@ update_file_size_information
     let old_file_size = from_u8_vec_res_macro!(u32, &file_size_buffer, &Endian::Little)?;
 
     // ...adding the delta byte count (and performing some checks)...
-    if delta < 0
+    let new_file_size = match u32::try_from(old_file_size as i64 + delta as i64)
     {
-        assert!(old_file_size as i32 > delta);
-    }
-    let new_file_size = (old_file_size as i32 + delta) as u32;
-
-    assert!(old_file_size % 2 == 0);
-    assert!(new_file_size % 2 == 0);
+        Ok(size) if old_file_size % 2 == 0 && size % 2 == 0
+            => size,
+        _ 
+            => return io_error!(InvalidData, "Invalid file size information in WebP file!")
+    };
 
     // ...and writing back to file...
     cursor.set_position(4);
@@ -498,6 +497,12 @@ set_exif_flag
     }	
 
     // At this point we know that we have a VP8X chunk at the expected location
+    // (Unless the size of that chunk tells that there are no flags)
+    if from_u8_vec_res_macro!(u32, &cursor.get_ref()[16..20], &Endian::Little)? < 10
+    {
+        return io_error!(InvalidData, "VP8X chunk of WebP file is too small!");
+    }
+
     // Mask the old flag by either or-ing with 1 at the EXIF flag position for
     // setting it to true, or and-ing with 1 everywhere but the EXIF flag pos
     // to set it to false
-- 
2.43.0


From 28a0d87ae75958863b483448fbf3b3ec87fe53c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 43/60] fix: canvas size of a lossless WebP image that gets
 converted to the extended format

---
 src/webp/vec.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index ee1cddf..35e0b23 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -444,25 +444,18 @@ get_dimension_info_from_vp8l_chunk
     // (although we only need 28 bits)
     // Starting at byte 1 instead of 0 due to the 0x2F byte
     // See: https://developers.google.com/speed/webp/docs/webp_lossless_bitstream_specification#3_riff_header
-    let width_height_info_buffer = payload[1..5].to_vec();
+    let Some(width_height_info_buffer) = payload.get(1..5) else {
+        return io_error!(InvalidData, "VP8L chunk too small!");
+    };
     
     // Convert to a single u32 number for bit-mask operations
     let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
     
-    let mut width  = 0;
-    let mut height = 0;
-
-    // Get the first 14 bit to construct the width
-    for bit_index in 0..14
-    {
-        width  |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    // Get the next 14 bit to construct the height
-    for bit_index in 14..28
-    {
-        height |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
+    // The bits get filled starting with the least significant one: The first 
+    // 14 bits are the width and the next 14 bits are the height
+    let bitmask_14 = (1 << 14) - 1;
+    let width  =  width_height_info        & bitmask_14;
+    let height = (width_height_info >> 14) & bitmask_14;
 
     return Ok((width, height));
 }
-- 
2.43.0


From 763c45b5add7ce9311a251ea8f05b18995d06fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 44/60] fix: keep the alpha information when converting a WebP
 image to the extended format

---
 src/webp/vec.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 35e0b23..7eb75d8 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -418,6 +418,13 @@ convert_to_extended_format
         0x00, 0x00, 0x00, 0x00, // Flags and reserved area                         -> 4 byte
     ];
 
+    // A lossless image tells with the bit after the dimensions if it uses alpha
+    if first_chunk.descriptor().header() == "VP8L"
+    && first_chunk.payload().get(4).is_some_and(|byte| byte & 0x10 != 0)
+    {
+        vp8x_chunk[8] |= 0x10;
+    }
+
     // Add the two 24 bits for width and height information
     for byte in  width_vec.iter().take(3) { vp8x_chunk.push(*byte); }
     for byte in height_vec.iter().take(3) { vp8x_chunk.push(*byte); }
-- 
2.43.0


From d290625ea081d16ed50c405e1839cd20cbd9faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 45/60] fix: report incomplete VP8 chunks instead of panicking

---
 src/webp/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/webp/mod.rs b/src/webp/mod.rs
index 287a269..8ea1423 100644
--- a/src/webp/mod.rs
+++ b/src/webp/mod.rs
@@ -155,6 +155,11 @@ get_dimension_info_from_vp8_chunk
     // VP8 Data Format https://datatracker.ietf.org/doc/html/rfc6386#section-9.1
     // Parsing function function vp8_parse_frame_header: https://datatracker.ietf.org/doc/html/rfc6386#section-20.4
 
+    if payload.len() < 10
+    {
+        return io_error!(InvalidData, "VP8 chunk too small!");
+    }
+
     let header_magic = payload[3..=5].to_vec();
     if 
         header_magic.len() != 3 || 
@@ -174,5 +179,10 @@ get_dimension_info_from_vp8_chunk
     let width  = width_info  & bitmask_14;
     let height = height_info & bitmask_14;
 
+    if width == 0 || height == 0
+    {
+        return io_error!(InvalidData, "Invalid dimensions in VP8 chunk!");
+    }
+
     return Ok((width as u32 -1, height as u32 -1));
 }
\ No newline at end of file
-- 
2.43.0


From f7db1ac891db1776fb152fed758b210bc5d5cd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 46/60] fix: the large size of a HEIF box comes before version
 and flags

---
 src/heif/box_header.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index 3ea282c..305b7b0 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -109,15 +109,6 @@ BoxHeader
             flags:       None,
         };
 
-        if box_type.extends_fullbox()
-        {
-            header.version = Some(read_1_bytes(cursor)?[0]);
-            header.flags   = Some(read_3_bytes(cursor)?);
-
-            // Adjust header size information
-            header.header_size += 4;
-        }
-
         // Uses largesize box size
         if header.box_size == 1
         { 
@@ -144,6 +135,15 @@ BoxHeader
             header.header_size += 8;
         }
 
+        if box_type.extends_fullbox()
+        {
+            header.version = Some(read_1_bytes(cursor)?[0]);
+            header.flags   = Some(read_3_bytes(cursor)?);
+
+            // Adjust header size information
+            header.header_size += 4;
+        }
+
         if let BoxType::uuid { usertype: _ } = header.box_type
         {
             let new_usertype = read_16_bytes(cursor)?;
@@ -253,6 +253,12 @@ BoxHeader
         // Serialize box type - Part 1
         serialized.extend(self.box_type.to_4_bytes());
 
+        // Serialize box size - Part 2
+        if self.largesize
+        {
+            serialized.extend(to_u8_vec_macro!(u64, &(self.box_size as u64), &Endian::Big).iter());
+        }
+
         // Serialize version and flags (if present)
         if self.box_type.extends_fullbox()
         {
@@ -263,12 +269,6 @@ BoxHeader
             }
         }
 
-        // Serialize box size - Part 2
-        if self.largesize
-        {
-            serialized.extend(to_u8_vec_macro!(u64, &(self.box_size as u64), &Endian::Big).iter());
-        }
-
         // Serialize box type - Part 2
         if let BoxType::uuid { usertype } = self.box_type
         {
-- 
2.43.0


From 640921cda44d6f82dfba60667b4e9a4e0c70a952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 47/60] fix: don't allocate memory for HEIF boxes before
 knowing that the data exists

---
 src/heif/boxes/iso.rs  | 34 ++-----------------------------
 src/heif/boxes/meta.rs | 39 +++++++++--------------------------
 src/heif/boxes/mod.rs  | 46 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 57 insertions(+), 62 deletions(-)

diff --git a/src/heif/boxes/iso.rs b/src/heif/boxes/iso.rs
index cb594e8..07c1317 100644
--- a/src/heif/boxes/iso.rs
+++ b/src/heif/boxes/iso.rs
@@ -7,6 +7,7 @@ use std::io::Seek;
 use crate::heif::box_header::BoxHeader;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
+use crate::heif::boxes::read_box_payload;
 
 #[allow(dead_code)]
 #[derive(Clone)]
@@ -31,38 +32,7 @@ IsoBox
     {
         log::trace!("Constructing generic ISO box for type {:?}", header.get_box_type());
 
-        // Check if this box is the last in the file
-        // See also: ISO/IEC 14496-12:2015, § 4.2
-        if header.get_box_size() == 0
-        {
-            let mut buffer = Vec::new();
-            cursor.read_to_end(&mut buffer)?;
-            return Ok(IsoBox {
-                header: header,
-                data:   buffer
-            });
-        }
-
-        let Some(data_left_to_read) = header.get_box_size().checked_sub(header.get_header_size()) else {
-            return Err(std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                format!(
-                    "Box size {} is smaller than header size {} for box type {:?}",
-                    header.get_box_size(),
-                    header.get_header_size(),
-                    header.get_box_type()
-                )
-            ));
-        };
-
-        let mut buffer: Vec<u8> = Vec::new();
-
-        // This may cause an out of memory error, but won't panic like vec![]
-        buffer.try_reserve_exact(data_left_to_read as usize)?;
-
-        // Can't use read_exact here because the name buffer we read into is
-        // still size 0 (only has reserved capacity!)
-        cursor.take(data_left_to_read as u64).read_to_end(&mut buffer)?;
+        let buffer = read_box_payload(cursor, &header)?;
 
         return Ok(IsoBox {
             header: header,
diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 1617bc6..ad319c6 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -21,6 +21,7 @@ use crate::heif::boxes::item_location::ItemLocationBox;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
 
 use super::read_box_based_on_header;
+use super::read_box_payload;
 
 #[allow(dead_code)]
 pub struct 
@@ -163,32 +164,9 @@ MetaBox
     )
     -> Result<Box<dyn GenericIsoBox>, std::io::Error>
     {
-        if header.get_box_size() < header.get_header_size()
-        {
-            return io_error!(
-                InvalidData,
-                format!(
-                    "MetaBox has invalid size: box size {} is smaller than header size {}",
-                    header.get_box_size(),
-                    header.get_header_size()
-                )
-            );
-        }
-
-        if header.get_box_size() < header.get_header_size() {
-            return io_error!(
-                InvalidData,
-                format!(
-                    "MetaBox has invalid size: box size {} is too small",
-                    header.get_box_size()
-                )
-            );
-        }
         // Read in the remaining bytes for this box
-        let     remaining_bytes = header.get_box_size() - header.get_header_size();
-        let mut meta_box_bytes: Vec<u8> = Vec::new();
-        meta_box_bytes.try_reserve_exact(remaining_bytes as usize)?;
-        cursor.take(remaining_bytes as u64).read_to_end(&mut meta_box_bytes)?;
+        let meta_box_bytes  = read_box_payload(cursor, &header)?;
+        let remaining_bytes = meta_box_bytes.len();
 
         // Construct local cursor for these bytes
         let mut local_cursor = Cursor::new(meta_box_bytes);
@@ -287,15 +265,16 @@ HandlerBox
 
         let mut name: Vec<u8> = Vec::new();
 
-        // This may cause an out of memory error, but won't panic like vec![]
-        name.try_reserve_exact(number_of_bytes_that_form_the_name as usize)?;
-
-        // Can't use read_exact here because the name buffer we read into is
-        // still size 0 (only has reserved capacity!)
+        // The size comes from the file, so don't allocate memory up front
         cursor
             .take(number_of_bytes_that_form_the_name as u64)
             .read_to_end(&mut name)?;
 
+        if name.len() as u64 != number_of_bytes_that_form_the_name
+        {
+            return io_error!(UnexpectedEof, "Incomplete HandlerBox");
+        }
+
         return Ok(HandlerBox { 
             header, 
             pre_defined,
diff --git a/src/heif/boxes/mod.rs b/src/heif/boxes/mod.rs
index 72f14d9..b20e10d 100644
--- a/src/heif/boxes/mod.rs
+++ b/src/heif/boxes/mod.rs
@@ -46,6 +46,52 @@ ParsableIsoBox: GenericIsoBox
 
 
 
+/// Reads everything that follows after the header of a box
+pub(super) fn
+read_box_payload
+<T: Seek + Read>
+(
+    cursor: &mut T,
+    header: &BoxHeader
+)
+-> Result<Vec<u8>, std::io::Error>
+{
+    let mut payload = Vec::new();
+
+    // Check if this box is the last in the file
+    // See also: ISO/IEC 14496-12:2015, § 4.2
+    if header.get_box_size() == 0
+    {
+        cursor.read_to_end(&mut payload)?;
+        return Ok(payload);
+    }
+
+    let Some(data_left_to_read) = header.get_box_size().checked_sub(header.get_header_size()) else {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            format!(
+                "Box size {} is smaller than header size {} for box type {:?}",
+                header.get_box_size(),
+                header.get_header_size(),
+                header.get_box_type()
+            )
+        ));
+    };
+
+    // The size comes from the file, so don't allocate memory up front
+    cursor.take(data_left_to_read).read_to_end(&mut payload)?;
+
+    if payload.len() as u64 != data_left_to_read
+    {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::UnexpectedEof,
+            format!("Incomplete box of type {:?}", header.get_box_type())
+        ));
+    }
+
+    return Ok(payload);
+}
+
 pub(super) fn
 read_box_based_on_header
 <T: Seek + Read>
-- 
2.43.0


From f6a886296a6cd2eaca7a5e527d9b58a9843e3e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 48/60] fix: invalid iinf, iloc and iref boxes in HEIF files

---
 src/heif/boxes/item_info.rs      | 12 ++++++++++++
 src/heif/boxes/item_location.rs  | 23 +++++++++++++++++++++++
 src/heif/boxes/item_reference.rs | 20 ++++++++++++--------
 3 files changed, 47 insertions(+), 8 deletions(-)

diff --git a/src/heif/boxes/item_info.rs b/src/heif/boxes/item_info.rs
index 63ea6c5..ca3c334 100644
--- a/src/heif/boxes/item_info.rs
+++ b/src/heif/boxes/item_info.rs
@@ -1,6 +1,7 @@
 // Copyright © 2025-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
+use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
 
@@ -15,6 +16,7 @@ use crate::util::read_null_terminated_string;
 use crate::heif::box_header::BoxHeader;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
+use crate::heif::boxes::read_box_payload;
 
 // - infe
 // 00000015:   size of 0x15 bytes (including the 0x04 bytes of the size field itself) 
@@ -194,6 +196,11 @@ ItemInfoBox
     )
     -> Result<Box<dyn GenericIsoBox>, std::io::Error>
     {
+        let     payload = read_box_payload(cursor, &header)?;
+        let     end     = payload.len() as u64;
+        let mut payload = Cursor::new(payload);
+        let     cursor  = &mut payload;
+
         // See: ISO/IEC 14496-12:2015, § 8.11.6.2
         let item_count = if header.get_version() == 0
         {
@@ -214,6 +221,11 @@ ItemInfoBox
             )?);
         }
 
+        if cursor.position() != end
+        {
+            return io_error!(InvalidData, "Unexpected data in iinf box");
+        }
+
         return Ok(Box::new(ItemInfoBox { 
             header,
             item_count, 
diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index b49425a..07f1210 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -1,6 +1,7 @@
 // Copyright © 2025-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
+use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
 
@@ -16,6 +17,7 @@ use crate::util::read_be_u64;
 use crate::heif::box_header::BoxHeader;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
+use crate::heif::boxes::read_box_payload;
 
 #[allow(dead_code)]
 pub(crate) struct
@@ -184,6 +186,11 @@ ItemLocationEntry
         (header.get_version() == 1) || (header.get_version() == 2)
         { read_be_u16(cursor)? } else { 0 };
 
+        if reserved_and_construction_method & 0x0f > 2
+        {
+            return io_error!(InvalidData, "Unknown item construction method!");
+        }
+
         let data_reference_index = read_be_u16(cursor)?;
         let base_offset = match base_offset_size
         {
@@ -195,6 +202,12 @@ ItemLocationEntry
 
         let extent_count = read_be_u16(cursor)?;
 
+        // There are no bytes in the file for such extents
+        if extent_count > 1 && offset_size == 0 && length_size == 0 && index_size == 0
+        {
+            return io_error!(InvalidData, "Multiple extents without any size!");
+        }
+
         let mut extents = Vec::new();
 
         for _ in 0..extent_count
@@ -304,6 +317,11 @@ ItemLocationBox
     )
     -> Result<Self, std::io::Error>
     {
+        let     payload = read_box_payload(cursor, &header)?;
+        let     end     = payload.len() as u64;
+        let mut payload = Cursor::new(payload);
+        let     cursor  = &mut payload;
+
         let temp = read_be_u16(cursor)?;
         let (offset_size, length_size, base_offset_size) =
             (
@@ -337,6 +355,11 @@ ItemLocationBox
             )?);
         }
 
+        if cursor.position() != end
+        {
+            return io_error!(InvalidData, "Unexpected data in iloc box");
+        }
+
         return Ok(ItemLocationBox {
             header,
             offset_size,
diff --git a/src/heif/boxes/item_reference.rs b/src/heif/boxes/item_reference.rs
index 3763c2f..1078ba6 100644
--- a/src/heif/boxes/item_reference.rs
+++ b/src/heif/boxes/item_reference.rs
@@ -1,6 +1,7 @@
 // Copyright © 2025-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
+use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
 
@@ -13,6 +14,7 @@ use crate::util::read_be_u32;
 use crate::heif::box_header::BoxHeader;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
+use crate::heif::boxes::read_box_payload;
 use crate::io_error;
 
 #[allow(non_snake_case)]
@@ -128,23 +130,25 @@ ItemReferenceBox
     )
     -> Result<Self, std::io::Error>
     {
-        let mut bytes_read = 0;
+        let     payload = read_box_payload(cursor, &header)?;
+        let     end     = payload.len() as u64;
+        let mut payload = Cursor::new(payload);
+        let     cursor  = &mut payload;
 
         let mut references = Vec::new();
 
-        if header.get_box_size() < header.get_header_size()
-        {
-            return io_error!(InvalidData, "Box size is smaller than header size for iref box");
-        }
-
-        while bytes_read < header.get_box_size() - header.get_header_size()
+        while cursor.position() < end
         {
+            let start          = cursor.position();
             let next_reference = SingleItemTypeReferenceBox::construct_from_cursor_unboxed(
                 cursor, 
                 &header
             )?;
 
-            bytes_read += next_reference.get_header().get_box_size();
+            if next_reference.get_header().get_box_size() != cursor.position() - start
+            {
+                return io_error!(InvalidData, "Unexpected data in iref box");
+            }
 
             references.push(next_reference);
         }
-- 
2.43.0


From c2b4755d45e34a96257888ce55cc94691aa7c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 49/60] fix: writing and clearing EXIF data in HEIF files

- find the Exif item by its type (also if the item has a name) and support 32 bit item IDs
- read EXIF data that is split into several extents or stored in the idat box
- don't lose data at the end of the file or after a box that can't be read
- replace the data of all Exif items, wherever it is, and move only what is located behind it
- use enough bytes for offsets and lengths in the iloc box
- don't reuse IDs and link new EXIF data to the primary item
- leave files alone that can't be written safely (e.g. image sequences)
- clearing a file without EXIF data is not an error
---
 src/heif/box_header.rs           |   7 +
 src/heif/boxes/iso.rs            |  30 +
 src/heif/boxes/item_info.rs      | 132 +++--
 src/heif/boxes/item_location.rs  | 220 ++++---
 src/heif/boxes/item_reference.rs |  87 ++-
 src/heif/boxes/meta.rs           | 159 +++--
 src/heif/container.rs            | 988 ++++++++++++++++++++-----------
 src/util.rs                      |  27 -
 8 files changed, 1048 insertions(+), 602 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index 305b7b0..4683ad4 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -192,8 +192,15 @@ BoxHeader
         &mut self,
         new_size: u64
     )
+    -> Result<(), std::io::Error>
     {
+        if !self.largesize && new_size > u32::MAX as u64
+        {
+            return io_error!(Unsupported, "HEIF: box gets too large");
+        }
+
         self.box_size = new_size;
+        return Ok(());
     }
 
     pub(super) fn
diff --git a/src/heif/boxes/iso.rs b/src/heif/boxes/iso.rs
index 07c1317..63b5c07 100644
--- a/src/heif/boxes/iso.rs
+++ b/src/heif/boxes/iso.rs
@@ -41,6 +41,36 @@ IsoBox
     }
 }
 
+impl
+IsoBox
+{
+    pub(crate) fn
+    get_data
+    (
+        &self
+    )
+    -> &[u8]
+    {
+        return &self.data;
+    }
+
+    pub(crate) fn
+    set_data
+    (
+        &mut self,
+        new_data: Vec<u8>
+    )
+    -> Result<(), std::io::Error>
+    {
+        self.data = new_data;
+
+        let new_size = self.serialize().len() as u64;
+        self.header.set_box_size(new_size)?;
+
+        return Ok(());
+    }
+}
+
 impl
 ParsableIsoBox
 for
diff --git a/src/heif/boxes/item_info.rs b/src/heif/boxes/item_info.rs
index ca3c334..5e3d4e0 100644
--- a/src/heif/boxes/item_info.rs
+++ b/src/heif/boxes/item_info.rs
@@ -9,11 +9,12 @@ use crate::endian::Endian;
 use crate::general_file_io::io_error;
 use crate::u8conversion::U8conversion;
 use crate::u8conversion::to_u8_vec_macro;
+use crate::util::read_4_bytes;
 use crate::util::read_be_u16;
 use crate::util::read_be_u32;
-use crate::util::read_null_terminated_string;
 
 use crate::heif::box_header::BoxHeader;
+use crate::heif::box_type::BoxType;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
 use crate::heif::boxes::read_box_payload;
@@ -36,10 +37,15 @@ pub struct
 ItemInfoEntryBox
 {
     pub(self)  header:                BoxHeader,
-    pub(crate) item_id:               u16,
+    pub(crate) item_id:               u32,
+        // only if version == 3, otherwise this is u16
+
     pub(crate) item_protection_index: u16,
-    pub(crate) item_name:             String,
+    pub(crate) item_type:             Option<[u8; 4]>,
+        // only if version >= 2
+
     pub(crate) additional_data:       Vec<u8>,
+        // the item name and the other strings
 }
 
 // - iinf
@@ -71,15 +77,32 @@ ItemInfoEntryBox
     )
     -> Result<Self, std::io::Error>
     {
-        let item_id               = read_be_u16(cursor)?;
+        // See: ISO/IEC 14496-12:2015, § 8.11.6.2
+        let item_id_size: u64 = if header.get_version() >= 3 { 4 } else { 2 };
+        let item_id           = if header.get_version() >= 3
+        {
+            read_be_u32(cursor)?
+        }
+        else
+        {
+            read_be_u16(cursor)? as u32
+        };
+
         let item_protection_index = read_be_u16(cursor)?;
-        let item_name             = read_null_terminated_string(cursor)?;
+        let item_type             = if header.get_version() >= 2
+        {
+            Some(read_4_bytes(cursor)?)
+        }
+        else
+        {
+            None
+        };
 
         // Determine how much data is left for this entry
         let data_read_so_far = header.get_header_size() 
-            + 2                           // item_id
-            + 2                           // item_protection_index
-            + item_name.len() as u64 + 1; // string len + null terminator
+            + item_id_size
+            + 2                                      // item_protection_index
+            + item_type.map_or(0, |t| t.len() as u64); // item_type
 
         if data_read_so_far > header.get_box_size()
         {
@@ -96,16 +119,20 @@ ItemInfoEntryBox
         let data_left_to_read = header.get_box_size() - data_read_so_far;
 
         let mut additional_data: Vec<u8> = Vec::new();
-        additional_data.try_reserve_exact(data_left_to_read as usize)?;
-        cursor.take(data_left_to_read as u64).read_to_end(&mut additional_data)?;
+        cursor.take(data_left_to_read).read_to_end(&mut additional_data)?;
+
+        if additional_data.len() as u64 != data_left_to_read
+        {
+            return io_error!(UnexpectedEof, "Incomplete infe box");
+        }
 
-        log::trace!("Successfully read in ItemInfoEntryBox with ID: {item_id}, Name: {item_name}");
+        log::trace!("Successfully read in ItemInfoEntryBox with ID: {item_id}, Type: {item_type:?}");
 
         return Ok(ItemInfoEntryBox {
             header,
             item_id,
             item_protection_index,
-            item_name,
+            item_type,
             additional_data,
         });
     }
@@ -136,49 +163,77 @@ ItemInfoEntryBox
 impl
 ItemInfoBox
 {
-    pub fn
-    get_exif_item
+    /// The IDs of all items that store EXIF data
+    pub(crate) fn
+    get_exif_item_ids
     (
         &self
     )
-    -> Option<&ItemInfoEntryBox>
+    -> Vec<u32>
     {
         return self.items.iter()
-            .find(|item| item.item_name == "Exif")
+            .filter(|item| item.item_type == Some(*b"Exif"))
+            .map(|item| item.item_id)
+            .collect();
     }
 
-    /// Creates a new item in this item information box and returns by how many
-    /// bytes this box got longer
+    /// Creates a new item in this item information box
     pub(crate) fn
     create_new_item_info_entry
     (
         &mut self,
-        iloc_id: u32,
-        name:    &str,
+        item_id:   u16,
+        item_type: [u8; 4],
     )
-    -> u64
+    -> Result<(), std::io::Error>
     {
+        if self.header.get_version() == 0 && self.item_count >= u16::MAX as usize
+        {
+            return io_error!(Unsupported, "No space for another entry in the iinf box");
+        }
+
         self.items.push(ItemInfoEntryBox 
             { 
                 header:                BoxHeader::new_exif_info_entry_box_header(), 
-                item_id:               iloc_id as u16, 
+                item_id:               item_id as u32, 
                 item_protection_index: 0, 
-                item_name:             name.to_string(), 
-                additional_data:       Vec::new()
+                item_type:             Some(item_type),
+                additional_data:       vec![0x00] // empty item name
             }
         );
 
-        self.item_count += 1;
+        return self.update_size();
+    }
+
+    pub(crate) fn
+    remove_items
+    (
+        &mut self,
+        item_ids: &[u32]
+    )
+    -> Result<(), std::io::Error>
+    {
+        self.items.retain(|item| !item_ids.contains(&item.item_id));
+        return self.update_size();
+    }
+
+    /// The item count as well as the size in the header needs to be adjusted 
+    /// if items get added or removed
+    fn
+    update_size
+    (
+        &mut self
+    )
+    -> Result<(), std::io::Error>
+    {
+        self.item_count  = self.items.len();
 
-        // Due to the addition of a new item, the size in the header needs to 
-        // be adjusted as well
         // TODO: make this more efficient by only computing how much memory is
         // needed, not by actually serializing (and thus, allocating memory)
-        let old_box_size = self.header.get_box_size();
         let new_box_size = self.serialize().len() as u64;
-        self.header.set_box_size(new_box_size);
+        self.header.set_box_size(new_box_size)?;
 
-        return new_box_size - old_box_size;
+        return Ok(());
     }
 }
 
@@ -215,6 +270,11 @@ ItemInfoBox
         for _ in 0..item_count
         {
             let header = BoxHeader::read_box_header(cursor)?;
+            if header.get_box_type() != BoxType::infe
+            {
+                return io_error!(InvalidData, "Expected infe box");
+            }
+
             items.push(ItemInfoEntryBox::construct_from_cursor_unboxed(
                 cursor, 
                 header
@@ -248,10 +308,16 @@ ItemInfoEntryBox
     {
         let mut serialized = self.header.serialize();
         
-        serialized.extend(to_u8_vec_macro!(u16, &self.item_id,               &Endian::Big).iter());
+        if self.header.get_version() >= 3
+        {
+            serialized.extend(to_u8_vec_macro!(u32, &self.item_id,               &Endian::Big).iter());
+        }
+        else
+        {
+            serialized.extend(to_u8_vec_macro!(u16, &(self.item_id as u16),      &Endian::Big).iter());
+        }
         serialized.extend(to_u8_vec_macro!(u16, &self.item_protection_index, &Endian::Big).iter());
-        serialized.extend(self.item_name.bytes());
-        serialized.push(0x00); // null terminator for item name string
+        serialized.extend(self.item_type.iter().flatten());
         serialized.extend(&self.additional_data);
 
         return serialized;
diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index 07f1210..2222ceb 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -4,6 +4,7 @@
 use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
+use std::ops::Range;
 
 use crate::io_error_plain;
 use crate::endian::Endian;
@@ -42,7 +43,7 @@ ItemLocationBox
 
 
 
-#[derive(Debug, PartialEq)]
+#[derive(Clone, Copy, Debug, PartialEq)]
 pub(crate) enum
 ItemConstructionMethod
 {
@@ -251,58 +252,31 @@ ItemLocationEntry
         };
     }
 
-    /*
+    /// Where the data of this item is located, relative to the start of the 
+    /// file or whatever else is given by the construction method
     pub(crate) fn
-    get_size
+    get_ranges
     (
-        &self,
-        parent: &ItemLocationBox
+        &self
     )
-    -> usize
+    -> Result<Vec<Range<u64>>, std::io::Error>
     {
-        let mut size = 0usize;
-
-        // item_id
-        if parent.get_header().get_version() == 2
-        {
-            size += 4;
-        }
-        else
-        {
-            size += 2;
-        }
-
-        // reserved_and_construction_method
-        if 
-            parent.get_header().get_version() == 1
-            ||
-            parent.get_header().get_version() == 2
-        {
-            size += 2;
-        }
-
-        // data_reference_index
-        size += 2;
-
-        // base_offset
-        size += parent.base_offset_size as usize;
-
-        // extent_count
-        size += 2;
+        let mut ranges = Vec::new();
 
-        // extents
         for extent in &self.extents
         {
-            size += extent.get_size(
-                parent.offset_size, 
-                parent.length_size, 
-                parent.index_size
-            );
+            let start = self.base_offset.checked_add(extent.extent_offset);
+            let end   = start.and_then(|s| s.checked_add(extent.extent_length));
+
+            match (start, end)
+            {
+                (Some(start), Some(end)) => ranges.push(start..end),
+                _ => return io_error!(InvalidData, "Invalid item extent")
+            }
         }
 
-        return size;
+        return Ok(ranges);
     }
-    */
 }
 
 impl
@@ -375,12 +349,12 @@ ItemLocationBox
     get_item_location_entry
     (
         &self,
-        item_id: u16
+        item_id: u32
     )
     -> Result<&ItemLocationEntry, std::io::Error>
     {
         self.items.iter()
-            .find(|item| item.item_id == item_id as u32)
+            .find(|item| item.item_id == item_id)
             .ok_or(
                 io_error_plain!(
                     Other, 
@@ -389,98 +363,122 @@ ItemLocationBox
             )
     }
 
-    // Returns the ID of the new entry and by how many bytes this box got longer
+    /// Creates a new, empty entry for an item that is stored in this file
     pub(crate) fn
     create_new_item_location_entry
     (
         &mut self,
-        data_start:  u64,
-        data_length: u64
+        item_id: u32
     )
-    -> (u32, u64)
+    -> Result<(), std::io::Error>
     {
-        // Determine largest iloc ID so far
-        let old_largest_id = self.items
-            .iter()
-            .map(|x| x.item_id)
-            .max()
-            .unwrap_or(0);
+        if self.header.get_version() < 2 
+            && (self.item_count >= u16::MAX as u32 || item_id > u16::MAX as u32)
+        {
+            return io_error!(Unsupported, "No space for another entry in the iloc box");
+        }
 
         self.items.push(ItemLocationEntry 
             {
-                item_id:                          old_largest_id + 1, 
+                item_id,
                 reserved_and_construction_method: 0, 
                 data_reference_index:             0, 
                 base_offset:                      0,
-                extent_count:                     1, 
-                extents:                          vec![
-                    ItemLocationEntryExtentEntry 
-                    {
-                        extent_index:  Some(0),
-                        extent_offset: data_start,
-                        extent_length: data_length,
-                    }
-                ]
+                extent_count:                     0, 
+                extents:                          Vec::new()
             }
         );
 
-        self.item_count += 1;
+        return self.update_size();
+    }
 
-        // Due to the addition of a new item, the size in the header needs to 
-        // be adjusted as well
-        // TODO: make this more efficient by only computing how much memory is
-        // needed, not by actually serializing (and thus, allocating memory)
-        let old_box_size = self.header.get_box_size();
-        let new_box_size = self.serialize().len() as u64;
-        self.header.set_box_size(new_box_size);
+    /// Sets that the data of the given item consists of a single extent that
+    /// is stored in this file, where the offset has yet to be determined
+    pub(crate) fn
+    set_single_extent
+    (
+        &mut self,
+        item_id: u32,
+        length:  u64
+    )
+    -> Result<(), std::io::Error>
+    {
+        if !self.items.iter().any(|item| item.item_id == item_id)
+        {
+            self.create_new_item_location_entry(item_id)?;
+        }
 
-        return (
-            self.items.last_mut().expect("No items present after insertion").item_id,
-            new_box_size - old_box_size
-        );
+        let mut is_first = true;
+        self.items.retain(|item| item.item_id != item_id || std::mem::take(&mut is_first));
+
+        for item in self.items.iter_mut().filter(|item| item.item_id == item_id)
+        {
+            item.reserved_and_construction_method &= !0x0f;
+            item.data_reference_index              = 0;
+            item.extents                           = vec![
+                ItemLocationEntryExtentEntry 
+                {
+                    extent_index:  Some(0),
+                    extent_offset: 0,
+                    extent_length: length,
+                }
+            ];
+        }
+
+        return self.update_size();
     }
 
     pub(crate) fn
-    add_to_extents
+    remove_items
     (
         &mut self,
-        value: i64
+        item_ids: &[u32]
     )
+    -> Result<(), std::io::Error>
     {
-        for item in &mut self.items
-        {
-            if item.get_construction_method() == ItemConstructionMethod::IDAT
-            {
-                // In this case the offset information is relative to the
-                // position of an idat box -> not affected by change in length
-                // of another box
-                continue;
-            }
+        self.items.retain(|item| !item_ids.contains(&item.item_id));
+        return self.update_size();
+    }
 
-            if item.get_construction_method() == ItemConstructionMethod::ITEM
-            {
-                // Offset is relative to another item's extent
-                // Also nothing to do here (for now...)
-                continue;
-            }
+    /// Uses more bytes for storing extent offsets and lengths, if possible
+    pub(crate) fn
+    enlarge_field_sizes
+    (
+        &mut self,
+        offset_size: bool,
+        length_size: bool
+    )
+    -> Result<(), std::io::Error>
+    {
+        let enlarge = |size: u8| if size < 4 { 4 } else { 8 };
 
-            if item.data_reference_index != 0
-            {
-                // A value other than 0 implies that this extent refers to
-                // another file, not this one, so we can also skip this
-                // See ISO/IEC 14496-12:2015 § 8.11.3.1, p. 78
-                continue;
-            }
+        if offset_size { self.offset_size = enlarge(self.offset_size); }
+        if length_size { self.length_size = enlarge(self.length_size); }
 
-            // For now, just add the value to the extent offsets. 
-            // This may be problematic in case the offset points to a location
-            // before the iloc or iinf boxes, so changing their length won't
-            // affect that offset value
-            for extent in &mut item.extents
-            {
-                extent.extent_offset = (extent.extent_offset as i64 + value) as u64;
-            }
+        return self.update_size();
+    }
+
+    /// The counts as well as the size in the header needs to be adjusted if 
+    /// the entries of this box change
+    pub(crate) fn
+    update_size
+    (
+        &mut self
+    )
+    -> Result<(), std::io::Error>
+    {
+        self.item_count = self.items.len() as u32;
+        for item in &mut self.items
+        {
+            item.extent_count = item.extents.len() as u16;
         }
+
+        // TODO: make this more efficient by only computing how much memory is
+        // needed, not by actually serializing (and thus, allocating memory)
+        let new_box_size = self.serialize().len() as u64;
+        self.header.set_box_size(new_box_size)?;
+
+        return Ok(());
     }
 }
 
@@ -576,11 +574,11 @@ ItemLocationBox
                     match self.index_size
                     {
                         4 => {
-                            let idx: u32 = extent.extent_index.expect("Extent index missing") as u32;
+                            let idx: u32 = extent.extent_index.unwrap_or(0) as u32;
                             serialized.extend(to_u8_vec_macro!(u32, &idx, &Endian::Big).iter());
                         },
                         8 => {
-                            let idx: u64 = extent.extent_index.expect("Extent index missing");
+                            let idx: u64 = extent.extent_index.unwrap_or(0);
                             serialized.extend(to_u8_vec_macro!(u64, &idx, &Endian::Big).iter());
                         },
                         _ => panic!("Invalid index_size!")
diff --git a/src/heif/boxes/item_reference.rs b/src/heif/boxes/item_reference.rs
index 1078ba6..f414824 100644
--- a/src/heif/boxes/item_reference.rs
+++ b/src/heif/boxes/item_reference.rs
@@ -165,38 +165,79 @@ ItemReferenceBox
         from_item_ID:   u32,
         to_item_ID:     Vec<u32>
     )
-    -> u64
+    -> Result<(), std::io::Error>
     {
-        // Determine is_large and the box size
-        let is_large = self.header.get_version() >= 1;
-        let ID_size  = if is_large { 4 } else { 2 };
-        let box_size = 0
-            + 8                                 // header
-            + ID_size                           // from_item_id
-            + 2                                 // reference_count
-            + to_item_ID.len() as u64 * ID_size // to_item_id
-            ; 
+        // IDs that need more than 16 bits require version 1 
+        if self.header.get_version() == 0 && to_item_ID.iter().any(|id| *id > u16::MAX as u32)
+        {
+            self.header.set_version(Some(1));
+            for reference in &mut self.references
+            {
+                reference.is_large = true;
+            }
+        }
 
         let mut new_reference_header = BoxHeader::new_simple_box_header();
         new_reference_header.set_box_type_via_string(reference_type);
-        new_reference_header.set_box_size(box_size);
 
-        let singe_item_reference_box = SingleItemTypeReferenceBox
+        self.references.push(SingleItemTypeReferenceBox
+            {
+                header:          new_reference_header,
+                is_large:        self.header.get_version() >= 1,
+                from_item_ID,
+                reference_count: to_item_ID.len() as u16,
+                to_item_ID,
+            }
+        );
+
+        return self.update_size();
+    }
+
+    /// Removes all references from and to the given items
+    pub(crate) fn
+    remove_items
+    (
+        &mut self,
+        item_ids: &[u32]
+    )
+    -> Result<(), std::io::Error>
+    {
+        for reference in &mut self.references
         {
-            header:          new_reference_header,
-            is_large,
-            from_item_ID,
-            reference_count: to_item_ID.len() as u16,
-            to_item_ID,
-        };
+            reference.to_item_ID.retain(|id| !item_ids.contains(id));
+        }
+
+        self.references.retain(|reference| 
+            !item_ids.contains(&reference.from_item_ID) 
+            && 
+            (!reference.to_item_ID.is_empty() || reference.reference_count == 0)
+        );
 
-        self.references.push(singe_item_reference_box);
+        for reference in &mut self.references
+        {
+            reference.reference_count = reference.to_item_ID.len() as u16;
+        }
+
+        return self.update_size();
+    }
+
+    fn
+    update_size
+    (
+        &mut self
+    )
+    -> Result<(), std::io::Error>
+    {
+        for reference in &mut self.references
+        {
+            let new_size = reference.serialize().len() as u64;
+            reference.header.set_box_size(new_size)?;
+        }
 
-        let old_iref_box_size = self.header.get_box_size();
-        let new_iref_box_size = old_iref_box_size + box_size;
-        self.header.set_box_size(new_iref_box_size);
+        let new_size = self.serialize().len() as u64;
+        self.header.set_box_size(new_size)?;
 
-        return box_size;
+        return Ok(());
     }
 }
 
diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index ad319c6..8d1337a 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -7,6 +7,7 @@ use std::io::Seek;
 
 use crate::endian::Endian;
 use crate::general_file_io::io_error;
+use crate::io_error_plain;
 use crate::u8conversion::U8conversion;
 use crate::u8conversion::to_u8_vec_macro;
 use crate::util::read_be_u32;
@@ -16,6 +17,7 @@ use crate::heif::box_header::BoxHeader;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
 
+use crate::heif::boxes::iso::IsoBox;
 use crate::heif::boxes::item_info::ItemInfoBox;
 use crate::heif::boxes::item_location::ItemLocationBox;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
@@ -43,6 +45,35 @@ MetaBox
 impl
 MetaBox
 {
+    /// Gets the first box of the given type, if there is one
+    pub(crate) fn
+    find_box
+    <T: 'static>
+    (
+        &self,
+        box_type: BoxType
+    )
+    -> Option<&T>
+    {
+        return self.other_boxes.iter()
+            .find(|b| b.get_header().get_box_type() == box_type)
+            .and_then(|b| b.as_any().downcast_ref::<T>());
+    }
+
+    pub(crate) fn
+    find_box_mut
+    <T: 'static>
+    (
+        &mut self,
+        box_type: BoxType
+    )
+    -> Option<&mut T>
+    {
+        return self.other_boxes.iter_mut()
+            .find(|b| b.get_header().get_box_type() == box_type)
+            .and_then(|b| b.as_any_mut().downcast_mut::<T>());
+    }
+
     pub(crate) fn
     get_item_info_box
     (
@@ -50,19 +81,21 @@ MetaBox
     )
     -> Result<&ItemInfoBox, std::io::Error>
     {
-        match self.other_boxes.iter().find(|b| b.get_header().get_box_type() == BoxType::iinf) {
-            Some(b) => match b.as_any().downcast_ref::<ItemInfoBox>() {
-                Some(unboxed) => Ok(unboxed),
-                None => io_error!(
-                    InvalidData,
-                    "Found iinf box but could not downcast to ItemInfoBox"
-                ),
-            },
-            None => io_error!(
-                NotFound,
-                "No iinf box found in MetaBox"
-            ),
-        }
+        return self.find_box(BoxType::iinf).ok_or(
+            io_error_plain!(NotFound, "No iinf box found in MetaBox")
+        );
+    }
+
+    pub(crate) fn
+    get_item_info_box_mut
+    (
+        &mut self
+    )
+    -> Result<&mut ItemInfoBox, std::io::Error>
+    {
+        return self.find_box_mut(BoxType::iinf).ok_or(
+            io_error_plain!(NotFound, "No iinf box found in MetaBox")
+        );
     }
 
     pub(crate) fn
@@ -72,19 +105,9 @@ MetaBox
     )
     -> Result<&ItemLocationBox, std::io::Error>
     {
-        match self.other_boxes.iter().find(|b| b.get_header().get_box_type() == BoxType::iloc) {
-            Some(b) => match b.as_any().downcast_ref::<ItemLocationBox>() {
-                Some(unboxed) => Ok(unboxed),
-                None => io_error!(
-                    InvalidData,
-                    "Found iloc box but could not downcast to ItemLocationBox"
-                ),
-            },
-            None => io_error!(
-                NotFound,
-                "No iloc box found in MetaBox"
-            ),
-        }
+        return self.find_box(BoxType::iloc).ok_or(
+            io_error_plain!(NotFound, "No iloc box found in MetaBox")
+        );
     }
 
     pub(crate) fn
@@ -94,19 +117,9 @@ MetaBox
     )
     -> Result<&mut ItemLocationBox, std::io::Error>
     {
-        match self.other_boxes.iter_mut().find(|b| b.get_header().get_box_type() == BoxType::iloc) {
-            Some(b) => match b.as_any_mut().downcast_mut::<ItemLocationBox>() {
-                Some(unboxed) => Ok(unboxed),
-                None => io_error!(
-                    InvalidData,
-                    "Found iloc box but could not downcast to ItemLocationBox"
-                ),
-            },
-            None => io_error!(
-                NotFound,
-                "No iloc box found in MetaBox"
-            ),
-        }
+        return self.find_box_mut(BoxType::iloc).ok_or(
+            io_error_plain!(NotFound, "No iloc box found in MetaBox")
+        );
     }
 
     pub(crate) fn
@@ -116,12 +129,39 @@ MetaBox
     )
     -> Option<&ItemReferenceBox>
     {
-        if let Some(found_box) = self.other_boxes.iter()
-            .find(|b| b.get_header().get_box_type() == BoxType::iref)
+        return self.find_box(BoxType::iref);
+    }
+
+    /// The item data (idat) box
+    pub(crate) fn
+    get_item_data_box
+    (
+        &self
+    )
+    -> Result<&IsoBox, std::io::Error>
+    {
+        return self.find_box(BoxType::idat).ok_or(
+            io_error_plain!(NotFound, "No idat box found in MetaBox")
+        );
+    }
+
+    /// The ID of the primary item, as given by the pitm box
+    pub(crate) fn
+    get_primary_item_id
+    (
+        &self
+    )
+    -> Option<u32>
+    {
+        let primary_item_box = self.find_box::<IsoBox>(BoxType::pitm)?;
+        let data             = primary_item_box.get_data();
+
+        // See: ISO/IEC 14496-12:2015, § 8.11.4.2
+        return match primary_item_box.get_header().get_version()
         {
-            return found_box.as_any().downcast_ref::<ItemReferenceBox>();
-        }
-        return None;
+            0 => data.get(0..2).map(|b| u16::from_be_bytes([b[0], b[1]]) as u32),
+            _ => data.get(0..4).map(|b| u32::from_be_bytes([b[0], b[1], b[2], b[3]])),
+        };
     }
 
     pub(crate) fn
@@ -129,24 +169,31 @@ MetaBox
     (
         &mut self
     )
-    -> u64
     {
-        if self.get_item_reference_box().is_some()
+        if self.get_item_reference_box().is_none()
         {
-            return 0;
+            self.other_boxes.push(Box::new(ItemReferenceBox::new()));
         }
+    }
 
-        let new_iref_box      = ItemReferenceBox::new();
-        let new_iref_box_size = new_iref_box.get_header().get_box_size();
+    /// Where the boxes within this box start, relative to the start of this box
+    pub(crate) fn
+    get_positions_of_other_boxes
+    (
+        &self
+    )
+    -> Vec<u64>
+    {
+        let mut positions = Vec::new();
+        let mut position  = (self.header.serialize().len() + self.handler_box.serialize().len()) as u64;
 
-        let index = self.other_boxes
-            .iter()
-            .position(|x| x.get_header().get_box_type() == BoxType::iinf)
-            .expect("Could not find iinf box to insert iref before");
-         
-        self.other_boxes.insert(index, Box::new(new_iref_box));
+        for other_box in &self.other_boxes
+        {
+            positions.push(position);
+            position += other_box.serialize().len() as u64;
+        }
 
-        return new_iref_box_size;
+        return positions;
     }
 }
 
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 5f17e97..add3de3 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -4,28 +4,83 @@
 use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
+use std::ops::Range;
 
 use crate::general_file_io::io_error;
 use crate::general_file_io::EXIF_HEADER;
+use crate::io_error_plain;
+use crate::heif::box_header::BoxHeader;
 use crate::heif::box_type::BoxType;
+use crate::heif::boxes::iso::IsoBox;
 use crate::heif::boxes::item_location::ItemConstructionMethod;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
 use crate::heif::boxes::meta::MetaBox;
 use crate::heif::read_next_box;
 
 use crate::metadata::Metadata;
-use crate::util::insert_multiple_at;
-use crate::util::range_remove;
-use crate::util::read_be_u32;
 
 use super::boxes::GenericIsoBox;
-use super::boxes::item_info::ItemInfoBox;
-use super::boxes::item_location::ItemLocationBox;
 
 pub struct
 HeifContainer
 {
-    boxes: Vec<Box<dyn GenericIsoBox>>
+    boxes:    Vec<Box<dyn GenericIsoBox>>,
+    trailing: Vec<u8>, // whatever is left after the last box
+}
+
+/// Describes that some bytes of a (top level or idat) box get replaced
+struct
+Replacement
+{
+    box_index: Option<usize>, // None for the idat box
+    old_range: Range<u64>,
+    new_bytes: Vec<u8>,
+}
+
+/// Where a byte ends up after making the given replacements. Only considers 
+/// replacements that are located within the same file/idat box
+fn
+position_after_replacements<'a>
+(
+    position:     u64,
+    replacements: impl Iterator<Item = &'a Replacement>
+)
+-> u64
+{
+    let mut new_position = position;
+
+    for replacement in replacements.filter(|r| r.old_range.end <= position)
+    {
+        new_position += replacement.new_bytes.len() as u64;
+        new_position -= replacement.old_range.end - replacement.old_range.start;
+    }
+
+    return new_position;
+}
+
+/// Replaces parts of the given bytes, which start at the given position. The
+/// replacements are sorted and don't overlap
+fn
+make_replacements<'a>
+(
+    bytes:        &[u8],
+    position:     u64,
+    replacements: impl Iterator<Item = &'a Replacement>
+)
+-> Vec<u8>
+{
+    let mut new_bytes = Vec::new();
+    let mut copied    = 0;
+
+    for replacement in replacements
+    {
+        new_bytes.extend(&bytes[copied..(replacement.old_range.start - position) as usize]);
+        new_bytes.extend(&replacement.new_bytes);
+        copied = (replacement.old_range.end - position) as usize;
+    }
+
+    new_bytes.extend(&bytes[copied..]);
+    return new_bytes;
 }
 
 // General structure of ISO container
@@ -82,14 +137,38 @@ HeifContainer
     )
     -> Result<Self, std::io::Error>
     {
-        let mut boxes = Vec::new();
+        let mut boxes: Vec<Box<dyn GenericIsoBox>> = Vec::new();
+        let mut trailing = Vec::new();
+
+        let file_size    = cursor.seek(std::io::SeekFrom::End(0))?;
+        let mut position = cursor.seek(std::io::SeekFrom::Start(0))?;
 
-        while let Ok(next_box) = read_next_box(cursor)
+        while position < file_size
         {
-            boxes.push(next_box);
+            match read_next_box(cursor)
+            {
+                Ok(next_box) => {
+                    boxes.push(next_box);
+                    position = cursor.stream_position()?;
+                },
+
+                // Don't bother if there is something else at the end of the 
+                // file, but don't lose it
+                Err(error) if 
+                    matches!(error.kind(), std::io::ErrorKind::InvalidData | std::io::ErrorKind::UnexpectedEof)
+                    &&
+                    boxes.iter().any(|b| b.get_header().get_box_type() == BoxType::meta)
+                => {
+                    cursor.seek(std::io::SeekFrom::Start(position))?;
+                    cursor.read_to_end(&mut trailing)?;
+                    break;
+                },
+
+                Err(error) => return Err(error)
+            }
         }
 
-        return Ok(Self { boxes })
+        return Ok(Self { boxes, trailing });
     }
 
     fn
@@ -130,66 +209,78 @@ HeifContainer
         }
     }
 
-    
-
     fn
-    get_item_id_exif_data
+    get_exif_item_ids
     (
         &self
     )
-    -> Result<u16, std::io::Error>
+    -> Result<Vec<u32>, std::io::Error>
     {
-        if let Ok(meta) = self.get_meta_box() 
-        {
-            if let Some(item) = meta.get_item_info_box()?.get_exif_item() {
-                return Ok(item.item_id);
-            }
-        }
-
-        return io_error!(Other, "No EXIF item found!");
+        return Ok(self.get_meta_box()?.get_item_info_box()?.get_exif_item_ids());
     }
 
+    /// Reads the data of an item
     fn
-    get_exif_data_pos_and_len
+    get_item_data
+    <T: Seek + Read>
     (
         &self,
-        exif_item_id: u16,
+        cursor:  &mut T,
+        item_id: u32
     )
-    -> Result<(u64, u64), std::io::Error>
+    -> Result<Vec<u8>, std::io::Error>
     {
-        let exif_item = match self.get_meta_box() 
-        {
-            Ok(meta) => meta.get_item_location_box()?.get_item_location_entry(exif_item_id)?,
-            Err(e) => return Err(e),
-        };
+        let meta      = self.get_meta_box()?;
+        let item      = meta.get_item_location_box()?.get_item_location_entry(item_id)?;
+        let file_size = cursor.seek(std::io::SeekFrom::End(0))?;
+        let mut data  = Vec::new();
 
-        let exif_extents = &exif_item.extents;
-        if exif_extents.len() != 1 
+        if item.data_reference_index != 0
         {
-            return io_error!(Other, "Expected exactly one EXIF extent info entry");
+            return io_error!(Unsupported, "HEIF: item data is stored in another file");
         }
 
-        match exif_item.get_construction_method()
+        for range in item.get_ranges()?
         {
-            super::boxes::item_location::ItemConstructionMethod::FILE => {
-                if let Some(first) = exif_extents.first() {
-                    return Ok((
-                        first.extent_offset + exif_item.base_offset,
-                        first.extent_length
-                    ));
-                } else {
-                    return io_error!(Other, "Expected one EXIF extent");
-                }
-            },
+            let length = range.end - range.start;
 
-            super::boxes::item_location::ItemConstructionMethod::IDAT => {
-                return io_error!(Other, "HEIF: item constr. method 'IDAT' currently not supported. Please create a new ticket at https://github.com/TechnikTobi/little_exif with an example image file");
-            },
+            if length > file_size - data.len() as u64
+            {
+                return io_error!(InvalidData, "HEIF: item is larger than the file");
+            }
 
-            super::boxes::item_location::ItemConstructionMethod::ITEM => {
-                return io_error!(Other, "HEIF: item constr. method 'ITEM' currently not supported. Please create a new ticket at https://github.com/TechnikTobi/little_exif with an example image file");
-            },
+            match item.get_construction_method()
+            {
+                ItemConstructionMethod::FILE => {
+                    let old_length = data.len() as u64;
+
+                    cursor.seek(std::io::SeekFrom::Start(range.start))?;
+                    cursor.take(length).read_to_end(&mut data)?;
+
+                    if data.len() as u64 != old_length + length
+                    {
+                        return io_error!(UnexpectedEof, "HEIF: item data is located beyond the end of the file");
+                    }
+                },
+
+                ItemConstructionMethod::IDAT => {
+                    let item_data = meta.get_item_data_box()?.get_data();
+
+                    if range.end > item_data.len() as u64
+                    {
+                        return io_error!(UnexpectedEof, "HEIF: item data is located beyond the end of the idat box");
+                    }
+
+                    data.extend(&item_data[range.start as usize..range.end as usize]);
+                },
+
+                ItemConstructionMethod::ITEM => {
+                    return io_error!(Unsupported, "HEIF: item constr. method 'ITEM' currently not supported. Please create a new ticket at https://github.com/TechnikTobi/little_exif with an example image file");
+                },
+            }
         }
+
+        return Ok(data);
     }
 
     pub(super) fn
@@ -202,409 +293,597 @@ HeifContainer
     -> Result<Vec<u8>, std::io::Error>
     {
         // Locate exif data
-        let exif_item_id    = self.get_item_id_exif_data()?;
-        let (start, length) = self.get_exif_data_pos_and_len(exif_item_id)?;
+        let Some(exif_item_id) = self.get_exif_item_ids()?.first().copied() else {
+            return io_error!(Other, "No EXIF item found!");
+        };
+        let exif_buffer = self.get_item_data(cursor, exif_item_id)?;
 
-        // Reset cursor to start of exif data
-        cursor.seek(std::io::SeekFrom::Start(start))?;
+        // The first 4 bytes give the offset to the start of the TIFF header
+        let tiff_header_start = exif_buffer.get(0..4)
+            .map(|b| u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as u64 + 4);
 
-        // Read in the first 4 bytes, which gives the offset to the start
-        // of the TIFF header and seek to that
-        let exif_tiff_header_offset = read_be_u32(cursor)? as usize;
+        match tiff_header_start
+        {
+            Some(start) if start <= exif_buffer.len() as u64 => {
+                // Stick a EXIF_HEADER in the front
+                let mut full_exif_data = EXIF_HEADER.to_vec();
+                full_exif_data.extend(&exif_buffer[start as usize..]);
 
-        cursor.seek(std::io::SeekFrom::Current(exif_tiff_header_offset as i64))?;
+                return Ok(full_exif_data);
+            },
 
-        if length < 4 + exif_tiff_header_offset as u64
-        {
-            return io_error!(
+            _ => io_error!(
                 InvalidData,
                 format!(
-                    "EXIF data length ({}) is smaller than expected minimum size ({})",
-                    length,
-                    4 + exif_tiff_header_offset as u64
+                    "EXIF data length ({}) is smaller than expected minimum size",
+                    exif_buffer.len()
                 )
-            );
+            )
         }
-
-        // Read in the remaining bytes
-        let mut exif_buffer = vec![0u8; 
-            length as usize 
-            - 4                       // the 4 bytes that store the offset
-            - exif_tiff_header_offset // the actual offset
-        ];
-        cursor.read_exact(&mut exif_buffer)?;
-
-        // Stick a EXIF_HEADER in the front
-        let mut full_exif_data = EXIF_HEADER.to_vec();
-        full_exif_data.append(&mut exif_buffer);
-
-        return Ok(full_exif_data);
     }
 
     /// Constructs a new version of the exif data area of the HEIF file
-    /// the i64 tells us the delta in bytes. If negative, the new area is
-    /// shorter than the old one, positive if longer
-    #[allow(unused_assignments)]
     fn
     construct_new_exif_data_area
-    <T: Seek + Read>
     (
         &self,
-        cursor:   &mut T,
-        metadata: &Metadata,
+        old_exif_data: &[u8],
+        metadata:      &Metadata,
     )
-    -> Result<(Vec<u8>, i64), std::io::Error>
+    -> Result<Vec<u8>, std::io::Error>
     {
-        // The buffer containing the new metadata that gets returned
-        let mut new_exif_buffer;
+        // The length of the EXIF header and the header itself. Keep it this 
+        // way if the old data did not have such a header
+        let mut new_exif_buffer = if old_exif_data.starts_with(&[0u8; 4])
+        {
+            vec![0u8; 4]
+        }
+        else
+        {
+            [&[0x00, 0x00, 0x00, 0x06], EXIF_HEADER.as_slice()].concat()
+        };
 
-        // Try to locate the old exif data. 
-        let exif_item_id = self.get_item_id_exif_data()?;
+        // Append the encoded metadata
+        new_exif_buffer.extend(metadata.encode()?);
 
-        // Determine the start and length of the previous exif data area
-        let (start, length) = self.get_exif_data_pos_and_len(exif_item_id)?;
+        return Ok(new_exif_buffer);
+    }
+
+    /// Where the top level boxes are located in the file
+    fn
+    get_box_ranges
+    (
+        &self
+    )
+    -> Vec<Range<u64>>
+    {
+        let mut ranges   = Vec::new();
+        let mut position = 0;
 
-        // If the length is zero, we assume that this is a previously newly 
-        // created exif data area, which requires special handling.
-        // If the length is non-zero, there has been exif data before:
-        if length > 0
+        for b in &self.boxes
         {
-            // Reset cursor to start of exif data
-            cursor.seek(std::io::SeekFrom::Start(start))?;
+            let length = b.serialize().len() as u64;
+            ranges.push(position..position + length);
+            position += length;
+        }
 
-            // Read in all of this area
-            let mut exif_buffer = vec![0u8; length as usize];
-            cursor.read_exact(&mut exif_buffer)?;
+        return ranges;
+    }
 
-            // Decode the first 4 bytes, which tells us where to cut off the old 
-            // data and replace with the new one
-            let mut local_cursor            = Cursor::new(exif_buffer[0..4].to_vec());
-            let     exif_tiff_header_offset = read_be_u32(&mut local_cursor)?;
+    /// Check that this container is understood well enough so that nothing 
+    /// gets lost or points to somewhere else after moving things around
+    fn
+    check_if_writing_is_possible
+    (
+        &self,
+        file_buffer: &[u8]
+    )
+    -> Result<(), std::io::Error>
+    {
+        let mut remaining = file_buffer;
 
-            // Cut off data, starting at the old TIFF header and replace with new
-            new_exif_buffer = exif_buffer[0..exif_tiff_header_offset as usize + 4].to_vec();
-        }
-        else
+        for b in &self.boxes
         {
-            // Create a new exif header, starting with an empty TIFF header.
-            // new_exif_buffer = 0_u32.to_be_bytes().to_vec();
-            new_exif_buffer = [0x00, 0x00, 0x00, 0x06].to_vec();
-            new_exif_buffer.extend(EXIF_HEADER.to_vec());
+            // Contain absolute positions that are not given by an iloc box
+            if ["moov", "moof"].iter().any(|t| b.get_header().get_box_type().to_4_bytes() == t.as_bytes())
+            {
+                return io_error!(Unsupported, "HEIF: writing metadata to image sequences is not supported");
+            }
+
+            remaining = match remaining.strip_prefix(b.serialize().as_slice())
+            {
+                Some(r) => r,
+                None => return io_error!(Unsupported, "HEIF: box can't be written without changing it")
+            };
         }
 
-        // Append the encoded metadata to the old/newly created TIFF header and
-        // compute the delta in length
-        if !metadata.get_ifds().is_empty()
+        if remaining != self.trailing
         {
-            new_exif_buffer.append(&mut metadata.encode()?);
+            return io_error!(Unsupported, "HEIF: file can't be written without changing it");
         }
-        let delta = new_exif_buffer.len() as i64 - length as i64;
 
-        return Ok((
-            new_exif_buffer,
-            delta 
-        ));
+        return Ok(());
     }
 
-
+    /// Determines an ID that is not in use yet
     fn
-    get_start_address_for_new_exif_area
+    get_new_item_id
     (
         &self
     )
-    -> u64
+    -> Result<u16, std::io::Error>
     {
-        // Assumes that the new exif area that gets created should start at the
-        // end of the mdat area
+        let meta = self.get_meta_box()?;
 
-        let mut byte_count = 0;
-
-        for b in &self.boxes
+        let mut used_ids: Vec<u32> = Vec::new();
+        used_ids.extend(meta.get_item_info_box()?.items.iter().map(|item| item.item_id));
+        used_ids.extend(meta.get_item_location_box()?.items.iter().map(|item| item.item_id));
+        for reference in meta.get_item_reference_box().iter().flat_map(|iref| &iref.references)
         {
-            byte_count += b.get_header().get_box_size();
+            used_ids.push(reference.from_item_ID);
+            used_ids.extend(&reference.to_item_ID);
+        }
 
-            if b.get_header().get_box_type() == BoxType::mdat
-            {
-                return byte_count as u64;
-            }
+        let largest_id = used_ids.iter().copied().max().unwrap_or(0);
+        if largest_id < u16::MAX as u32
+        {
+            return Ok(largest_id as u16 + 1);
         }
 
-        return u64::MAX;
+        used_ids.sort_unstable();
+        return (1..=u16::MAX)
+            .find(|id| used_ids.binary_search(&(*id as u32)).is_err())
+            .ok_or(io_error_plain!(Unsupported, "HEIF: no unused item ID left"));
     }
 
-
-    pub(super) fn
-    generic_write_metadata
+    /// Determines what needs to be replaced in order to remove the data of the
+    /// given items. The replacements don't have any new bytes.
+    fn
+    get_replacements_for_removing_items
     (
-        &mut self,
-        file_buffer: &mut Vec<u8>,
-        metadata:    &    Metadata
+        &self,
+        item_ids: &[u32]
     )
-    -> Result<(), std::io::Error>
+    -> Result<Vec<Replacement>, std::io::Error>
     {
-        // Find out where old exif is located, needed to determine which iloc
-        // entries need to be updated
-        let mut id = self.get_item_id_exif_data();
+        let meta       = self.get_meta_box()?;
+        let box_ranges = self.get_box_ranges();
 
-        // Check that the ID is okay - if not, there is no exif area yet and
-        // we need to create one!
-        if id.is_err()
+        let mut to_remove: Vec<(Option<usize>, Range<u64>)> = Vec::new();
+        let mut to_keep:   Vec<(bool,          Range<u64>)> = Vec::new();
+
+        for item in &meta.get_item_location_box()?.items
         {
-            // What we need to do at this point is
-            // - Create a new item location entry that points to the EXIF data
-            // - Create an item information entry that tells us that the iloc 
-            //   entry points to EXIF data
-            // - Create an item reference entry that links the EXIF data to the
-            //   image/iloc ID #1 -> is this always #1?
-
-            // Where to put the new exif area
-            let new_exif_start = self.get_start_address_for_new_exif_area();
-
-            // If there is no iref box yet, create one so we can find one,
-            // and get the size delta of the new box for extents
-            let mut iref_size_delta = self.get_meta_box_mut()?.create_new_item_reference_box_if_none_exists_yet();
-
-            // Acquire the item location, the item information and the item 
-            // reference boxes that are inside the meta box. For some reason, 
-            // this is not trivial - using e.g. get_item_location_box_mut() 
-            // does not work due to (according to the borrow checker) multiple 
-            // mutable usages of self
-            let mut iloc_opt = None;
-            let mut iinf_opt = None;
-            let mut iref_opt = None;
-
-            let meta_mut_ref = self.get_meta_box_mut()?;
-            for other_box in &mut meta_mut_ref.other_boxes
+            let construction_method = item.get_construction_method();
+            let is_idat             = construction_method == ItemConstructionMethod::IDAT;
+
+            if construction_method == ItemConstructionMethod::ITEM || item.data_reference_index != 0
             {
-                if other_box.get_header().get_box_type() == BoxType::iloc
+                if item_ids.contains(&item.item_id)
                 {
-                    iloc_opt = other_box
-                        .as_any_mut()
-                        .downcast_mut::<ItemLocationBox>();
+                    return io_error!(Unsupported, "HEIF: can't replace EXIF data that is stored somewhere else");
                 }
-                else if other_box.get_header().get_box_type() == BoxType::iinf
+                continue;
+            }
+
+            for range in item.get_ranges()?.into_iter().filter(|r| !r.is_empty())
+            {
+                if !item_ids.contains(&item.item_id)
                 {
-                    iinf_opt = other_box
-                        .as_any_mut()
-                        .downcast_mut::<ItemInfoBox>();
+                    to_keep.push((is_idat, range));
+                    continue;
                 }
-                else if other_box.get_header().get_box_type() == BoxType::iref
+
+                if is_idat
                 {
-                    iref_opt = other_box
-                        .as_any_mut()
-                        .downcast_mut::<ItemReferenceBox>();
+                    if range.end > meta.get_item_data_box()?.get_data().len() as u64
+                    {
+                        return io_error!(InvalidData, "HEIF: EXIF data is located beyond the end of the idat box");
+                    }
+
+                    to_remove.push((None, range));
+                    continue;
                 }
-            }
 
-            let iloc = match iloc_opt {
-                Some(v) => v,
-                None => return io_error!(Other, "iloc box should exist"),
-            };
-            let iinf = match iinf_opt {
-                Some(v) => v,
-                None => return io_error!(Other, "iinf box should exist"),
-            };
-            let iref = match iref_opt {
-                Some(v) => v,
-                None => return io_error!(Other, "iref box should exist"),
-            };
+                // The data needs to be located in a single box
+                let box_index = (0..self.boxes.len()).find(|index| {
+                    let header       = self.boxes[*index].get_header();
+                    let payload_start = box_ranges[*index].start + header.serialize().len() as u64;
 
-            // Note that the given `new_exif_start` value is based on old
-            // length values (which change due to adding a new item to both the
-            // iloc and iinf boxes) - but this does not matter as this will 
-            // be updated anyway later by `add_to_extents`
-            // This way, we don't need any exception during the update procedure
-            let (new_iloc_id, iloc_size_delta) = iloc.create_new_item_location_entry(
-                new_exif_start,
-                0
-            );
-            let               iinf_size_delta  = iinf.create_new_item_info_entry(
-                new_iloc_id, 
-                "Exif"
-            );
-                              iref_size_delta += iref.create_new_single_item_reference_box(
-                "cdsc",             // TODO: Check if this is always this type?
-                new_iloc_id, 
-                vec![1]             // TODO: Check if this is always item #1?
-            );
+                    payload_start <= range.start && range.end <= box_ranges[*index].end
+                        && header.get_box_type() != BoxType::meta
+                });
 
-            // Fix the extents in the iloc box
-            iloc.add_to_extents(
-                (iloc_size_delta + iinf_size_delta + iref_size_delta) as i64
-            );
+                match box_index
+                {
+                    Some(index) => to_remove.push((Some(index), range)),
+                    None => return io_error!(Unsupported, "HEIF: EXIF data is not located in a mdat box")
+                }
+            }
+        }
 
-            // Fix up the size of the meta box as well
-            let new_box_size = self.get_meta_box()?.serialize().len() as u64;
-            self.get_meta_box_mut()?.get_header_mut().set_box_size(new_box_size);
+        // Other items might also use these bytes
+        to_remove.retain(|(box_index, range)| 
+            !to_keep.iter().any(|(is_idat, other)| 
+                *is_idat == box_index.is_none() && other.start < range.end && range.start < other.end
+            )
+        );
 
-            // No change to the mdat data at this point as we set up the
-            // iloc item so that the exif area currently has a length of zero
+        to_remove.sort_by_key(|(box_index, range)| (*box_index, range.start));
 
-            // Now we have a valid exif area with an iloc ID!
-            id = Ok(new_iloc_id as u16);
+        let mut replacements: Vec<Replacement> = Vec::new();
+        for (box_index, range) in to_remove
+        {
+            match replacements.last_mut()
+            {
+                Some(last) if last.box_index == box_index && range.start <= last.old_range.end => {
+                    last.old_range.end = last.old_range.end.max(range.end);
+                },
+                _ => replacements.push(Replacement { box_index, old_range: range, new_bytes: Vec::new() })
+            }
         }
 
-        // Get position and length of current exif area
-        let (old_exif_pos, old_exif_len) = match &id {
-            Ok(idv) => self.get_exif_data_pos_and_len(*idv)?,
-            Err(_) => (0, 0),
-        };
+        return Ok(replacements);
+    }
 
-        // Get cursor for file
-        let mut cursor = Cursor::new(file_buffer);
+    /// If there is no exif area yet, what we need to do is
+    /// - Create a new item location entry that points to the EXIF data
+    /// - Create an item information entry that tells us that the iloc 
+    ///   entry points to EXIF data
+    /// - Create an item reference entry that links the EXIF data to the
+    ///   primary image
+    fn
+    create_new_exif_item
+    (
+        &mut self
+    )
+    -> Result<u32, std::io::Error>
+    {
+        let new_item_id = self.get_new_item_id()?;
+        let meta_mut    = self.get_meta_box_mut()?;
 
-        // Construct new exif data area
-        let (mut new_exif_area, delta) = self.construct_new_exif_data_area(
-            &mut cursor, 
-            metadata
-        )?;
+        let image_item_id = meta_mut.get_primary_item_id().or(
+            meta_mut.get_item_info_box()?.items.first().map(|item| item.item_id)
+        );
 
-        let meta_mut = self.get_meta_box_mut()?;
-        for item in &mut meta_mut.get_item_location_box_mut()?.items
+        meta_mut.get_item_info_box_mut()?.create_new_item_info_entry(new_item_id, *b"Exif")?;
+
+        if let Some(image_item_id) = image_item_id
         {
-            // First, check if any extent of this item has the same offset as
-            // the old exif data area. In that case, there must be only one
-            // extent - other cases can't be handled right now
-            if item.extents.iter()
-                .any(|extent| {
-                    item.base_offset + extent.extent_offset == old_exif_pos
-                })
+            meta_mut.create_new_item_reference_box_if_none_exists_yet();
+
+            match meta_mut.find_box_mut::<ItemReferenceBox>(BoxType::iref)
             {
-                assert!(item.extents.len() == 1, "Expect to have exactly one extent info for EXIF!");
+                Some(iref) => iref.create_new_single_item_reference_box(
+                    "cdsc",
+                    new_item_id as u32,
+                    vec![image_item_id]
+                )?,
+                None => return io_error!(Other, "iref box should exist")
+            }
+        }
 
-                // In case of the EXIF extent information we need to update
-                // the length information, not the offset!
-                let first_extent = match item.extents.first() {
-                    Some(f) => f,
-                    None => return io_error!(Other, "Expected one extent for EXIF"),
-                };
-                let new_ext_len = (
-                    first_extent.extent_length as i64
-                    + delta
-                ) as u64;
-                match item.extents.first_mut() {
-                    Some(fm) => fm.extent_length = new_ext_len,
-                    None => return io_error!(Other, "Expected one extent for EXIF (mut)"),
+        return Ok(new_item_id as u32);
+    }
+
+    /// Updates the iloc entries so that they describe the new locations of the 
+    /// items
+    fn
+    update_item_locations
+    (
+        &mut self,
+        replacements:       &[Replacement],
+        exif_item_id:       u32,
+        old_exif_position:  u64,
+        exif_length:        u64,
+        old_meta_range:     &Range<u64>,
+        old_meta_positions: &[u64],
+    )
+    -> Result<(), std::io::Error>
+    {
+        loop
+        {
+            let new_meta_length    = self.get_meta_box()?.serialize().len() as u64;
+            let new_meta_positions = self.get_meta_box()?.get_positions_of_other_boxes();
+
+            // Determines where a byte of the old file is in the new file
+            let new_file_position = |position: u64| -> u64
+            {
+                // If this is inside the meta box then it depends on the box
+                // inside of it
+                if old_meta_range.contains(&position)
+                {
+                    let index = old_meta_positions.iter()
+                        .rposition(|p| old_meta_range.start + *p <= position);
+
+                    let relative_position = match index // relative to the meta box
+                    {
+                        Some(index) => position - old_meta_range.start - old_meta_positions[index] + new_meta_positions[index],
+                        None        => position - old_meta_range.start
+                    };
+
+                    return position_after_replacements(
+                        old_meta_range.start, 
+                        replacements.iter().filter(|r| r.box_index.is_some())
+                    ) + relative_position;
                 }
 
-                 continue;
-            }
+                let new_position = position_after_replacements(
+                    position, 
+                    replacements.iter().filter(|r| r.box_index.is_some())
+                );
 
-            if item.get_construction_method() == ItemConstructionMethod::IDAT
+                if position >= old_meta_range.end
+                {
+                    return new_position - (old_meta_range.end - old_meta_range.start) + new_meta_length;
+                }
+
+                return new_position;
+            };
+
+            let iloc = self.get_meta_box_mut()?.get_item_location_box_mut()?;
+
+            let fits = |value: u64, size: u8| match size
             {
-                // In this case the offset information is relative to the
-                // position of an idat box -> not affected by change in length
-                // of another box
-                continue;
-            }
+                0 => value == 0,
+                4 => value <= u32::MAX as u64,
+                _ => true
+            };
+
+            // (base offset, extents' offsets)
+            let mut new_offsets           = Vec::new();
+            let mut offset_size_too_small = false;
 
-            if item.get_construction_method() == ItemConstructionMethod::ITEM
+            for item in &iloc.items
             {
-                // Offset is relative to another item's extent
-                // Also nothing to do here (for now...)
-                continue;
+                if item.get_construction_method() == ItemConstructionMethod::ITEM || item.data_reference_index != 0
+                {
+                    // Offset is relative to another item's extent or another
+                    // file, nothing to do here
+                    // See ISO/IEC 14496-12:2015 § 8.11.3.1, p. 78
+                    new_offsets.push((
+                        item.base_offset,
+                        item.extents.iter().map(|extent| extent.extent_offset).collect::<Vec<_>>()
+                    ));
+                    continue;
+                }
+
+                let is_idat = item.get_construction_method() == ItemConstructionMethod::IDAT;
+                let new_positions: Vec<u64> = if item.item_id == exif_item_id
+                {
+                    // Starts where the replacement starts
+                    vec![new_file_position(old_exif_position) - exif_length]
+                }
+                else
+                {
+                    item.get_ranges()?.iter()
+                        .map(|range| if is_idat
+                            {
+                                position_after_replacements(
+                                    range.start, 
+                                    replacements.iter().filter(|r| r.box_index.is_none())
+                                )
+                            }
+                            else
+                            {
+                                new_file_position(range.start)
+                            }
+                        )
+                        .collect()
+                };
+
+                let smallest_position   = new_positions.iter().copied().min().unwrap_or(0);
+                let new_base_offset     = [item.base_offset, smallest_position, 0].into_iter()
+                    .filter(|base| fits(*base, iloc.base_offset_size))
+                    .find(|base| 
+                        new_positions.iter().all(|p| *p >= *base && fits(*p - *base, iloc.offset_size))
+                    );
+
+                match new_base_offset
+                {
+                    Some(base) => new_offsets.push((
+                        base, 
+                        new_positions.iter().map(|p| p - base).collect()
+                    )),
+                    None => offset_size_too_small = true
+                }
             }
 
-            if item.data_reference_index != 0
+            // Need more space for the offsets or the length, which moves the 
+            // data again
+            let length_size_too_small = !fits(exif_length, iloc.length_size);
+            if offset_size_too_small || length_size_too_small
             {
-                // A value other than 0 implies that this extent refers to
-                // another file, not this one, so we can also skip this
-                // See ISO/IEC 14496-12:2015 § 8.11.3.1, p. 78
+                iloc.enlarge_field_sizes(offset_size_too_small, length_size_too_small)?;
+                self.update_meta_box_size()?;
                 continue;
             }
 
-            if item.base_offset > delta.unsigned_abs()
+            for (item, (base_offset, extent_offsets)) in iloc.items.iter_mut().zip(new_offsets)
             {
-                // Potentially modify the entire base offset 
-                // however, we can only do that if all complete offsets
-                // point to an area after the exif data area
-                // So we need to check that first:
-                if item.extents.iter()
-                    .all(|extent| {
-                        item.base_offset + extent.extent_offset >= old_exif_pos
-                    })
+                item.base_offset = base_offset;
+                for (extent, extent_offset) in item.extents.iter_mut().zip(extent_offsets)
                 {
-                    item.base_offset = (item.base_offset as i64 + delta) as u64;
-                    continue;
+                    extent.extent_offset = extent_offset;
                 }
             }
 
-            // At this point we have no option left but to modify all 
-            // individual extent offsets
-            for extent in &mut item.extents
-            {
-                let complete_offset = item.base_offset + extent.extent_offset;
+            return Ok(());
+        }
+    }
 
-                if complete_offset > old_exif_pos
-                {
-                    extent.extent_offset = (extent.extent_offset as i64 + delta) as u64;
-                }
+    fn
+    update_meta_box_size
+    (
+        &mut self
+    )
+    -> Result<(), std::io::Error>
+    {
+        let new_box_size = self.get_meta_box()?.serialize().len() as u64;
+
+        return self.get_meta_box_mut()?.get_header_mut().set_box_size(new_box_size);
+    }
+
+    pub(super) fn
+    generic_write_metadata
+    (
+        &mut self,
+        file_buffer: &mut Vec<u8>,
+        metadata:    &    Metadata
+    )
+    -> Result<(), std::io::Error>
+    {
+        self.check_if_writing_is_possible(file_buffer)?;
+
+        // Find out where old exif is located and what the new exif looks like
+        let exif_item_ids = self.get_exif_item_ids()?;
+        let old_exif_data = match exif_item_ids.first()
+        {
+            Some(id) => self.get_item_data(&mut Cursor::new(&*file_buffer), *id).unwrap_or_default(),
+            None     => Vec::new()
+        };
+        let new_exif_area    = self.construct_new_exif_data_area(&old_exif_data, metadata)?;
+        let new_exif_length  = new_exif_area.len() as u64;
+
+        // Determine how the boxes are arranged before changing anything
+        let box_ranges         = self.get_box_ranges();
+        let old_meta_range     = (0..self.boxes.len())
+            .find(|index| self.boxes[*index].get_header().get_box_type() == BoxType::meta)
+            .map(|index| box_ranges[index].clone())
+            .ok_or(io_error_plain!(Other, "No meta box found in HEIF container"))?;
+        let old_meta_positions = self.get_meta_box()?.get_positions_of_other_boxes();
+
+        // Remove the old exif data and put the new exif data where the old 
+        // data was. If this is not possible it should be located at the end 
+        // of the (first) mdat box.
+        let mut replacements = self.get_replacements_for_removing_items(&exif_item_ids)?;
+        let     first_mdat   = (0..self.boxes.len())
+            .find(|index| self.boxes[*index].get_header().get_box_type() == BoxType::mdat);
+        let     exif_position;
+
+        if let Some(replacement) = replacements.iter_mut().find(|r| r.box_index.is_some())
+        {
+            replacement.new_bytes = new_exif_area;
+            exif_position         = replacement.old_range.end;
+        }
+        else if let Some(mdat_index) = first_mdat
+        {
+            exif_position = box_ranges[mdat_index].end;
+            replacements.push(Replacement { 
+                box_index: Some(mdat_index),
+                old_range: exif_position..exif_position,
+                new_bytes: new_exif_area
+            });
+        }
+        else
+        {
+            // Create a new mdat box after all other boxes, the last of which 
+            // might not have a size yet
+            if let Some(last) = self.boxes.last_mut()
+            {
+                let last_size = last.serialize().len() as u64;
+                last.get_header_mut().set_box_size(last_size)?;
             }
+
+            let mut new_box = BoxHeader::new_simple_box_header();
+            new_box.set_box_type_via_string("mdat");
+            new_box.set_box_size(8 + new_exif_length)?;
+
+            exif_position = box_ranges.last().map_or(0, |range| range.end);
+            replacements.push(Replacement { 
+                box_index: Some(self.boxes.len()),
+                old_range: exif_position..exif_position,
+                new_bytes: [new_box.serialize(), new_exif_area].concat()
+            });
         }
 
-        // Now we clear the vec and write the boxes to it
-        // Keep track of how many bytes were written so we know when to 
-        // replace old exif data with new
-        cursor.get_mut().clear();
+        // Update the entries for the exif item. Additional exif items aren't 
+        // needed as their data has been removed
+        let exif_item_id = match exif_item_ids.first()
+        {
+            Some(id) => *id,
+            None     => self.create_new_exif_item()?
+        };
+        let additional_ids: Vec<u32> = exif_item_ids.into_iter()
+            .filter(|id| *id != exif_item_id)
+            .collect();
 
-        let mut written_bytes    = 0usize;
-        let mut new_exif_written = false;
-        let     end_of_old_exif  = (old_exif_pos + old_exif_len) as usize;
+        let meta_mut = self.get_meta_box_mut()?;
+        if !additional_ids.is_empty()
+        {
+            meta_mut.get_item_info_box_mut()?.remove_items(&additional_ids)?;
+            meta_mut.get_item_location_box_mut()?.remove_items(&additional_ids)?;
+            if let Some(iref) = meta_mut.find_box_mut::<ItemReferenceBox>(BoxType::iref)
+            {
+                iref.remove_items(&additional_ids)?;
+            }
+        }
+
+        meta_mut.get_item_location_box_mut()?.set_single_extent(exif_item_id, new_exif_length)?;
 
-        for iso_box in &mut self.boxes
+        if replacements.iter().any(|r| r.box_index.is_none())
         {
-            let mut serialized = iso_box.serialize();
-
-            // If this box encompasses the exif data area, update its size and
-            // serialize it again
-            // TODO: As this is not the cleanest approach (e.g. what if the
-            // exif area is not in this top level box but some nested box? 
-            // -> requires update of size fields of all boxes "downward") some
-            // other solution needs to be found for this
-            // In the meantime, this should work for the majority of HEIFs
-            if 
-                written_bytes + serialized.len() >= end_of_old_exif 
-                && 
-                !new_exif_written
+            if let Some(item_data_box) = meta_mut.find_box_mut::<IsoBox>(BoxType::idat)
             {
-                let new_size = (iso_box.get_header().get_box_size() as i64 + delta) as u64;
-                iso_box.get_header_mut().set_box_size(new_size);
-                serialized = iso_box.serialize();
-
-                // Write the serialized box with the OLD exif data
-                cursor.get_mut().extend(&serialized);
-
-                // Remove old exif data
-                range_remove(
-                    cursor.get_mut(), 
-                    old_exif_pos as usize, 
-                    (old_exif_pos + old_exif_len) as usize
+                let new_data = make_replacements(
+                    item_data_box.get_data(), 
+                    0, 
+                    replacements.iter().filter(|r| r.box_index.is_none())
                 );
+                item_data_box.set_data(new_data)?;
+            }
+        }
 
-                // Insert new exif data
-                insert_multiple_at(
-                    cursor.get_mut(),
-                    old_exif_pos as usize, 
-                    &mut new_exif_area
-                );
+        self.update_meta_box_size()?;
+        self.update_item_locations(
+            &replacements, 
+            exif_item_id, 
+            exif_position, 
+            new_exif_length, 
+            &old_meta_range, 
+            &old_meta_positions
+        )?;
+
+        // Put everything together
+        let mut new_file = Vec::new();
 
-                new_exif_written = true;
+        for (index, (iso_box, range)) in self.boxes.iter_mut().zip(&box_ranges).enumerate()
+        {
+            if iso_box.get_header().get_box_type() == BoxType::meta
+            {
+                new_file.extend(iso_box.serialize());
+                continue;
             }
-            else
+
+            let header_length = iso_box.get_header().serialize().len() as u64;
+            let payload_start = range.start + header_length;
+            let new_payload   = make_replacements(
+                &file_buffer[payload_start as usize..range.end as usize], 
+                payload_start, 
+                replacements.iter().filter(|r| r.box_index == Some(index))
+            );
+
+            // A size of zero means that the box extends to the end of the file
+            if iso_box.get_header().get_box_size() != 0
             {
-                // Just extend with the serialized box contents
-                cursor.get_mut().extend(&serialized);
+                iso_box.get_header_mut().set_box_size(header_length + new_payload.len() as u64)?;
             }
 
-            written_bytes += serialized.len();
+            new_file.extend(iso_box.get_header().serialize());
+            new_file.extend(new_payload);
         }
 
+        new_file.extend(make_replacements(
+            &self.trailing,
+            box_ranges.last().map_or(0, |range| range.end),
+            replacements.iter().filter(|r| r.box_index == Some(self.boxes.len()))
+        ));
+
+        *file_buffer = new_file;
         return Ok(());
     }
 
-
-
-    pub(super) fn 
+        pub(super) fn 
     generic_clear_metadata
     (
         &mut self,
@@ -623,13 +902,18 @@ HeifContainer
         // Note: It is up for debate whether keeping this information is wanted
         // or not/this should write a truly empty exif area
 
-        // Create cursor
-        let mut cursor = Cursor::new(file_buffer);
+        // Nothing to do if there is no exif data
+        match self.get_meta_box()?.get_item_info_box()
+        {
+            Ok(item_info_box) if !item_info_box.get_exif_item_ids().is_empty() => (),
+            _ => return Ok(())
+        }
 
-        // Read original metadata
+        // Read original metadata - if that's not possible then there are no 
+        // tags that can be kept
         let orig_metadata = Metadata::general_decoding_wrapper(
-            self.get_exif_data(&mut cursor)
-        )?;
+            self.get_exif_data(&mut Cursor::new(&*file_buffer))
+        ).unwrap_or_default();
 
         // Construct new metadata that only contains the above tags
         let mut new_metadata = Metadata::new();
@@ -658,6 +942,6 @@ HeifContainer
             new_metadata.set_tag(tag.clone());
         }
 
-        return self.generic_write_metadata(cursor.get_mut(), &new_metadata);
+        return self.generic_write_metadata(file_buffer, &new_metadata);
     }
 }
diff --git a/src/util.rs b/src/util.rs
index f6444db..0591a0f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -194,33 +194,6 @@ read_be_u64
     return Ok(value);
 }
 
-pub(crate) fn
-read_null_terminated_string
-<T: Seek + Read>
-(
-    cursor: &mut T
-)
--> Result<String, std::io::Error>
-{
-    let mut string_buffer    = Vec::new();
-    let mut character_buffer = read_1_bytes(cursor)?;
-    while character_buffer[0] != 0x00
-    {
-        string_buffer.push(character_buffer[0]);
-        character_buffer = read_1_bytes(cursor)?;
-    }
-
-    return String::from_utf8(string_buffer).map_err(
-        |_e| 
-        std::io::Error::new
-        (
-            std::io::ErrorKind::InvalidData,
-            "Could not convert byte data to UTF-8 string!"
-        )
-    );
-}
-
-
 /// Inserts a slice into a vector at a given offset, shifting elements 
 /// starting at the offset towards the end.
 /// Returns 0 (zero) if the operation was successful, non-zero if the offset 
-- 
2.43.0


From a234137ed2bd78a3c94f3b7974a1cfca94e71a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 50/60] fix: only keep tags of the image itself when clearing
 HEIF metadata

---
 src/heif/container.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index add3de3..679440e 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -8,6 +8,7 @@ use std::ops::Range;
 
 use crate::general_file_io::io_error;
 use crate::general_file_io::EXIF_HEADER;
+use crate::ifd::ExifTagGroup;
 use crate::io_error_plain;
 use crate::heif::box_header::BoxHeader;
 use crate::heif::box_type::BoxType;
@@ -915,29 +916,34 @@ HeifContainer
             self.get_exif_data(&mut Cursor::new(&*file_buffer))
         ).unwrap_or_default();
 
+        // These tags need to belong to the image itself, not its thumbnail
+        let find_tag = |hex: u16| orig_metadata
+            .get_ifd(ExifTagGroup::GENERIC, 0)
+            .and_then(|ifd| ifd.get_tags().iter().find(|tag| tag.as_u16() == hex));
+
         // Construct new metadata that only contains the above tags
         let mut new_metadata = Metadata::new();
 
         // 0x0112: Orientation
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x0112, None).next()
+        if let Some(tag) = find_tag(0x0112)
         {
             new_metadata.set_tag(tag.clone());
         }
 
         // 0x011A: XResolution
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x011A, None).next()
+        if let Some(tag) = find_tag(0x011A)
         {
             new_metadata.set_tag(tag.clone());
         }
 
         // 0x011A: YResolution
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x011B, None).next()
+        if let Some(tag) = find_tag(0x011B)
         {
             new_metadata.set_tag(tag.clone());
         }
 
         // 0x0128: ResolutionUnit
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x0128, None).next()
+        if let Some(tag) = find_tag(0x0128)
         {
             new_metadata.set_tag(tag.clone());
         }
-- 
2.43.0


From c188658e2ec4859bc3bc423dc39685eb2cb80408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 51/60] fix: JXL file that gets shorter while reading the last
 box

---
 src/jxl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index 2cf2ee1..7bc4919 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -127,7 +127,7 @@ read_box_header
             let position = cursor.stream_position()?;
             let end      = cursor.seek(SeekFrom::End(0))?;
             cursor.seek(SeekFrom::Start(position))?;
-            Some(end - position)
+            Some(end.saturating_sub(position))
         },
 
         // The length does not fit in 4 bytes and follows the type
-- 
2.43.0


From 6dc3feb1fcfae437d0d649889f7f96306139ccfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 52/60] fix: keep null characters between the parts of a text
 that is not UTF-8

---
 src/u8conversion.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/u8conversion.rs b/src/u8conversion.rs
index c3bcf47..3fc9205 100644
--- a/src/u8conversion.rs
+++ b/src/u8conversion.rs
@@ -155,17 +155,15 @@ impl U8conversion<String> for String
             return Ok(utf8_decode_result.trim_end_matches('\0').to_string());
         }
 
-        let mut result = String::new();
-
-        for byte in u8_vec
-        {
-            if *byte > 0
-            {
-                result.push(*byte as char);
-            }
-        }
-
-        Ok(result)
+        // Not UTF-8: Treat it as Latin-1. Again, only null characters at the 
+        // end are dropped: Those in between separate the parts of a text, e.g.
+        // photographer and editor in the copyright tag
+        let result = u8_vec
+            .iter()
+            .map(|byte| *byte as char)
+            .collect::<String>();
+
+        Ok(result.trim_end_matches('\0').to_string())
     }
 }
 
-- 
2.43.0


From 3784ca319cf635d0f1827288614327f48afff0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 53/60] fix: refuse to clear TIFFs whose tiles, SubIFDs or JPEG
 tables would get lost

---
 src/metadata/edit.rs | 2 ++
 src/tiff/mod.rs      | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/metadata/edit.rs b/src/metadata/edit.rs
index 25275f0..a5ea8bb 100644
--- a/src/metadata/edit.rs
+++ b/src/metadata/edit.rs
@@ -68,10 +68,12 @@ Metadata
 						| 0x0122 | 0x0123                               // GrayResponseUnit, GrayResponseCurve
 						| 0x0124 | 0x0125                               // T4Options, T6Options
 						| 0x013d                                        // Predictor
+						| 0x0142..=0x0145 | 0x014a                      // TileWidth ... TileByteCounts, SubIFDs
 						| 0x014c..=0x0151                               // InkSet ... TargetPrinter
 						| 0x0152..=0x0155                               // ExtraSamples ... SMaxSampleValue
 						| 0x0156                                        // TransferRange
 						| 0x015b                                        // JPEGTables
+						| 0x0200 | 0x0203 | 0x0205..=0x0209             // JPEGProc ... JPEGACTables
 						| 0x8773                                        // ICC profile
 					)
 					=> (),
diff --git a/src/tiff/mod.rs b/src/tiff/mod.rs
index 9df9fc8..212e1b9 100644
--- a/src/tiff/mod.rs
+++ b/src/tiff/mod.rs
@@ -102,8 +102,8 @@ check_for_required_tags
     }
 
     // Next, check for tags with offsets to data that isn't part of the metadata
-    // struct (tiles & SubIFDs) - the data would get lost
-    for hex in [0x0144, 0x014a]
+    // struct (tiles, SubIFDs & JPEG tables) - the data would get lost
+    for hex in [0x0144, 0x014a, 0x0207, 0x0208, 0x0209]
     {
         if metadata.get_tag_by_hex(hex, Some(GENERIC)).count() != 0
         {
-- 
2.43.0


From ea5d32c51354c288027b5e2ceec16b9ee097668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 54/60] fix: refuse to overwrite data that is not a TIFF with a
 TIFF

---
 src/tiff/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/tiff/mod.rs b/src/tiff/mod.rs
index 212e1b9..96efe32 100644
--- a/src/tiff/mod.rs
+++ b/src/tiff/mod.rs
@@ -5,7 +5,9 @@ use std::io::Seek;
 use std::io::Read;
 use std::io::Write;
 
+use crate::general_file_io::BIG_ENDIAN_INFO;
 use crate::general_file_io::EXIF_HEADER;
+use crate::general_file_io::LITTLE_ENDIAN_INFO;
 use crate::io_error;
 use crate::metadata::Metadata;
 use crate::ifd::ExifTagGroup::*;
@@ -15,7 +17,7 @@ pub mod vec;
 
 pub(crate) fn
 generic_write_metadata
-<T: Seek + Write>
+<T: Seek + Read + Write>
 (
     cursor:   &mut T,
     metadata: &Metadata
@@ -25,6 +27,19 @@ generic_write_metadata
     // First, check for required tags
     check_for_required_tags(metadata)?;
 
+    // The image gets replaced as a whole. This must only happen to data that
+    // actually is a TIFF, or where there isn't any data yet
+    let mut header = Vec::new();
+    Read::by_ref(cursor).take(4).read_to_end(&mut header)?;
+    cursor.rewind()?;
+
+    if    !header.is_empty()
+       && header != LITTLE_ENDIAN_INFO
+       && header != BIG_ENDIAN_INFO
+    {
+        return io_error!(InvalidData, "Can't write TIFF - Existing data is not a TIFF!");
+    }
+
     // Does *not* call generic_clear_metadata, as the entire tiff data gets
     // overwritten anyways
     cursor.write_all(&metadata.encode()?)?;
-- 
2.43.0


From b94fded2186c6650d14e3e8416858e51023ebeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:30 +0000
Subject: [PATCH 55/60] fix: refuse iloc boxes with field sizes that do not
 exist

---
 src/heif/boxes/item_location.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index 2222ceb..f6ca131 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -309,6 +309,16 @@ ItemLocationBox
             _     => 0,
         };
 
+        // The entries and their extents, of which there might be none, can
+        // only be written again with these
+        for size in [offset_size, length_size, base_offset_size, index_size]
+        {
+            if !matches!(size, 0 | 4 | 8)
+            {
+                return io_error!(InvalidData, format!("Invalid field size in iloc box: {}!", size));
+            }
+        }
+
         let item_count = match header.get_version()
         {
             0 | 1 => read_be_u16(cursor)? as u32,
-- 
2.43.0


From 1b3ba13788c0d6ef77b2a87290f759b1f909e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:30 +0000
Subject: [PATCH 56/60] fix: do not panic on items with an unknown construction
 method

---
 src/heif/boxes/item_location.rs | 10 +++++-----
 src/heif/container.rs           |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index f6ca131..41984ba 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -241,14 +241,14 @@ ItemLocationEntry
     (
         &self
     )
-    -> ItemConstructionMethod
+    -> Result<ItemConstructionMethod, std::io::Error>
     {
         return match self.reserved_and_construction_method as u8 & 0x0f
         {
-            0 => ItemConstructionMethod::FILE,
-            1 => ItemConstructionMethod::IDAT,
-            2 => ItemConstructionMethod::ITEM,
-            _ => panic!("Unknown item construction method!")
+            0 => Ok(ItemConstructionMethod::FILE),
+            1 => Ok(ItemConstructionMethod::IDAT),
+            2 => Ok(ItemConstructionMethod::ITEM),
+            _ => io_error!(InvalidData, "Unknown item construction method!")
         };
     }
 
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 679440e..289c303 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -250,7 +250,7 @@ HeifContainer
                 return io_error!(InvalidData, "HEIF: item is larger than the file");
             }
 
-            match item.get_construction_method()
+            match item.get_construction_method()?
             {
                 ItemConstructionMethod::FILE => {
                     let old_length = data.len() as u64;
@@ -455,7 +455,7 @@ HeifContainer
 
         for item in &meta.get_item_location_box()?.items
         {
-            let construction_method = item.get_construction_method();
+            let construction_method = item.get_construction_method()?;
             let is_idat             = construction_method == ItemConstructionMethod::IDAT;
 
             if construction_method == ItemConstructionMethod::ITEM || item.data_reference_index != 0
@@ -637,7 +637,7 @@ HeifContainer
 
             for item in &iloc.items
             {
-                if item.get_construction_method() == ItemConstructionMethod::ITEM || item.data_reference_index != 0
+                if item.get_construction_method()? == ItemConstructionMethod::ITEM || item.data_reference_index != 0
                 {
                     // Offset is relative to another item's extent or another
                     // file, nothing to do here
@@ -649,7 +649,7 @@ HeifContainer
                     continue;
                 }
 
-                let is_idat = item.get_construction_method() == ItemConstructionMethod::IDAT;
+                let is_idat = item.get_construction_method()? == ItemConstructionMethod::IDAT;
                 let new_positions: Vec<u64> = if item.item_id == exif_item_id
                 {
                     // Starts where the replacement starts
-- 
2.43.0


From 9aadea66fb1b52d59d3b30b22b2b1cdfbcd20617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:30 +0000
Subject: [PATCH 57/60] fix: handle HEIF images with 'iloc' references between
 items

---
 src/heif/box_header.rs           | 27 +++++++++++++++++++++------
 src/heif/boxes/item_reference.rs |  3 ++-
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index 4683ad4..2c1eeff 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -86,8 +86,10 @@ BoxHeader
         }
     }
 
+    /// Reads in the header of a box without the additional fields of a full
+    /// box, even if the box type is usually that of one
     pub(super) fn
-    read_box_header
+    read_plain_box_header
     <T: Seek + Read>
     (
         cursor: &mut T
@@ -103,7 +105,7 @@ BoxHeader
         let mut header = Self {
             box_size:    box_size as u64,
             largesize:   false,
-            box_type:    box_type.clone(),
+            box_type,
             header_size: 8,
             version:     None,
             flags:       None,
@@ -135,7 +137,20 @@ BoxHeader
             header.header_size += 8;
         }
 
-        if box_type.extends_fullbox()
+        return Ok(header);
+    }
+
+    pub(super) fn
+    read_box_header
+    <T: Seek + Read>
+    (
+        cursor: &mut T
+    )
+    -> Result<Self, std::io::Error>
+    {
+        let mut header = Self::read_plain_box_header(cursor)?;
+
+        if header.box_type.extends_fullbox()
         {
             header.version = Some(read_1_bytes(cursor)?[0]);
             header.flags   = Some(read_3_bytes(cursor)?);
@@ -267,10 +282,10 @@ BoxHeader
         }
 
         // Serialize version and flags (if present)
-        if self.box_type.extends_fullbox()
+        if let (Some(version), Some(flags)) = (self.version, self.flags)
         {
-            serialized.push(self.version.expect("BoxHeader: version is not set when serializing"));
-            for flag in self.flags.expect("BoxHeader: flags not set when serializing")
+            serialized.push(version);
+            for flag in flags
             {
                 serialized.push(flag);
             }
diff --git a/src/heif/boxes/item_reference.rs b/src/heif/boxes/item_reference.rs
index f414824..94a51ac 100644
--- a/src/heif/boxes/item_reference.rs
+++ b/src/heif/boxes/item_reference.rs
@@ -50,7 +50,8 @@ SingleItemTypeReferenceBox
     )
     -> Result<Self, std::io::Error>
     {
-        let     header     = BoxHeader::read_box_header(cursor)?;
+        // Never a full box, in contrast to other boxes of type e.g. 'iloc'
+        let     header     = BoxHeader::read_plain_box_header(cursor)?;
         let mut to_item_ID = Vec::new();
 
         // Depending on the version stored in the header of the iref box,
-- 
2.43.0


From b25126f11c44241cfbca72cc82149ba769c5fd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:12 +0000
Subject: [PATCH 58/60] fix: bound the memory that overlapping IFDs and values
 can take

---
 src/ifd/mod.rs      | 30 +++++++++++++++++++++++++++---
 src/metadata/mod.rs |  7 ++++++-
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 55822d3..fdee6f0 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -94,6 +94,22 @@ ImageFileDirectory
         self.tags.sort_by_key(|tag| tag.as_u16());
     }
 
+    /// Takes the given amount from what may still be decoded
+    fn
+    take_from_budget
+    (
+        budget: &mut u64,
+        amount:      u64,
+    )
+    -> Result<(), std::io::Error>
+    {
+        let Some(remaining_budget) = budget.checked_sub(amount) else {
+            return io_error!(InvalidData, "The IFDs describe far more data than there is!");
+        };
+        *budget = remaining_budget;
+        Ok(())
+    }
+
     /// Reads the given number of bytes, but doesn't allocate memory for them
     /// in case there is not enough data left 
     fn
@@ -101,9 +117,12 @@ ImageFileDirectory
     (
         data_cursor: &mut Cursor<&Vec<u8>>,
         byte_count:       u32,
+        budget:      &mut u64,
     )
     -> Result<Vec<u8>, std::io::Error>
     {
+        Self::take_from_budget(budget, byte_count as u64)?;
+
         let remaining = (data_cursor.get_ref().len() as u64).saturating_sub(data_cursor.position());
         if byte_count as u64 > remaining
         {
@@ -126,6 +145,7 @@ ImageFileDirectory
         group:               &    ExifTagGroup,
         generic_ifd_nr:           u32,                                          // Reuse value for recursive calls; only gets incremented by caller
         insert_into:         &mut Vec<ImageFileDirectory>,                      // Stays the same for all calls to this function while decoding
+        budget:              &mut u64,                                          // What may still be decoded; IFDs and values may overlap
     )
     -> Result<Option<u32>, std::io::Error>
     {
@@ -179,6 +199,9 @@ ImageFileDirectory
         // `number_of_entries` is correct
         for _ in 0..number_of_entries
         {
+            // In memory an entry takes more than the 12 bytes in the file
+            Self::take_from_budget(budget, 64)?;
+
             // Read the entry into a buffer
             let mut entry_buffer = vec![0u8; IFD_ENTRY_LENGTH as usize];
             data_cursor.read_exact(&mut entry_buffer)?;
@@ -224,7 +247,7 @@ ImageFileDirectory
                 data_cursor.seek(std::io::SeekFrom::Current(hex_offset as i64))?;
 
                 // Read the raw data
-                raw_data = Self::read_data(data_cursor, byte_count)?;
+                raw_data = Self::read_data(data_cursor, byte_count, budget)?;
             
                 // Rewind the cursor to the start of the next entry
                 data_cursor.set_position(backup_position);
@@ -302,6 +325,7 @@ ImageFileDirectory
                     &subifd_group,
                     generic_ifd_nr,
                     insert_into,
+                    budget,
                 );
 
                 // Check that this actually worked
@@ -411,7 +435,7 @@ ImageFileDirectory
                     data_cursor.set_position(data_begin_position);
                     data_cursor.seek(std::io::SeekFrom::Current(*offset as i64))?;
 
-                    strip_data.push(Self::read_data(data_cursor, *byte_count)?);
+                    strip_data.push(Self::read_data(data_cursor, *byte_count, budget)?);
                 }
 
                 // Push StripOffset tag to tags vector
@@ -447,7 +471,7 @@ ImageFileDirectory
                     // Gather the data at the offset
                     data_cursor.set_position(data_begin_position);
                     data_cursor.seek(std::io::SeekFrom::Current(offset[0] as i64))?;
-                    let thumbnail_data = Self::read_data(data_cursor, length[0])?;
+                    let thumbnail_data = Self::read_data(data_cursor, length[0], budget)?;
 
                     // Push ThumbnailOffset tag to tags vector
                     tags.push(ExifTag::ThumbnailOffset(Vec::new(), thumbnail_data));
diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 9d0eeb6..3320f49 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -305,6 +305,10 @@ Metadata
         data_cursor.read_exact(&mut ifd0_offset_buffer)?;
         let mut ifd_offset_option = Some(from_u8_vec_res_macro!(u32, &ifd0_offset_buffer, &endian)?);
 
+        // As IFDs and values may overlap, little data may describe lots of it.
+        // Well-formed data doesn't come close to this limit.
+        let mut budget = (16 << 20) + 8 * data_cursor.get_ref().len() as u64;
+
         // Decode all the IFDs
         let mut ifds = Vec::new();
         let mut generic_ifd_nr = 0;
@@ -327,7 +331,8 @@ Metadata
                 &endian,
                 &ExifTagGroup::GENERIC,
                 generic_ifd_nr,
-                &mut ifds
+                &mut ifds,
+                &mut budget
             );
 
             ifd_offset_option = decode_result?;
-- 
2.43.0


From 32875ce7ed9d96afa4dc8be677f8891b1c974802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:37 +0000
Subject: [PATCH 59/60] fix: adjust positions of HEIF items whose data
 reference stands for the file itself

---
 src/heif/boxes/meta.rs | 34 ++++++++++++++++++++++++++++++++++
 src/heif/container.rs  | 16 ++++++++++++----
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 8d1337a..34e8b2a 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -164,6 +164,40 @@ MetaBox
         };
     }
 
+    /// Whether a data reference index given by the iloc box stands for this
+    /// file, i.e. is zero or refers to an entry of the dref box (within the
+    /// dinf box) that has the "self-contained" flag set
+    pub(crate) fn
+    refers_to_this_file
+    (
+        &self,
+        data_reference_index: u16
+    )
+    -> bool
+    {
+        if data_reference_index == 0 { return true; }
+
+        let Some(data_info_box) = self.find_box::<IsoBox>(BoxType::dinf) else { return false; };
+
+        // dref box: header, version & flags, number of entries, entries
+        // See: ISO/IEC 14496-12:2015, § 8.7.2
+        let data         = data_info_box.get_data();
+        let mut position = 16;
+
+        if data.get(4..8) != Some(b"dref") { return false; }
+
+        for _ in 1..data_reference_index
+        {
+            match data.get(position..).and_then(|d| d.get(..4))
+            {
+                Some(b) => position = position.saturating_add(u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize),
+                None    => return false,
+            }
+        }
+
+        return data.get(position.saturating_add(11)).is_some_and(|flags| flags & 0x01 != 0);
+    }
+
     pub(crate) fn
     create_new_item_reference_box_if_none_exists_yet
     (
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 289c303..20cfcbd 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -236,7 +236,7 @@ HeifContainer
         let file_size = cursor.seek(std::io::SeekFrom::End(0))?;
         let mut data  = Vec::new();
 
-        if item.data_reference_index != 0
+        if !meta.refers_to_this_file(item.data_reference_index)
         {
             return io_error!(Unsupported, "HEIF: item data is stored in another file");
         }
@@ -458,7 +458,7 @@ HeifContainer
             let construction_method = item.get_construction_method()?;
             let is_idat             = construction_method == ItemConstructionMethod::IDAT;
 
-            if construction_method == ItemConstructionMethod::ITEM || item.data_reference_index != 0
+            if construction_method == ItemConstructionMethod::ITEM || !meta.refers_to_this_file(item.data_reference_index)
             {
                 if item_ids.contains(&item.item_id)
                 {
@@ -622,6 +622,14 @@ HeifContainer
                 return new_position;
             };
 
+            let is_external: Vec<bool> = {
+                let meta = self.get_meta_box()?;
+
+                meta.get_item_location_box()?.items.iter()
+                    .map(|item| !meta.refers_to_this_file(item.data_reference_index))
+                    .collect()
+            };
+
             let iloc = self.get_meta_box_mut()?.get_item_location_box_mut()?;
 
             let fits = |value: u64, size: u8| match size
@@ -635,9 +643,9 @@ HeifContainer
             let mut new_offsets           = Vec::new();
             let mut offset_size_too_small = false;
 
-            for item in &iloc.items
+            for (item, is_external) in iloc.items.iter().zip(is_external)
             {
-                if item.get_construction_method()? == ItemConstructionMethod::ITEM || item.data_reference_index != 0
+                if item.get_construction_method()? == ItemConstructionMethod::ITEM || is_external
                 {
                     // Offset is relative to another item's extent or another
                     // file, nothing to do here
-- 
2.43.0


From 9237abe945326180ea259422fdf36ee0744a3185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:40 +0000
Subject: [PATCH 60/60] fix: tolerate a few bytes after the last HEIF box

---
 src/heif/container.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 20cfcbd..7e53020 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -156,7 +156,12 @@ HeifContainer
                 // Don't bother if there is something else at the end of the 
                 // file, but don't lose it
                 Err(error) if 
-                    matches!(error.kind(), std::io::ErrorKind::InvalidData | std::io::ErrorKind::UnexpectedEof)
+                    (
+                        matches!(error.kind(), std::io::ErrorKind::InvalidData | std::io::ErrorKind::UnexpectedEof)
+                        ||
+                        // Too short for a box header
+                        file_size - position < 16
+                    )
                     &&
                     boxes.iter().any(|b| b.get_header().get_box_type() == BoxType::meta)
                 => {
-- 
2.43.0

