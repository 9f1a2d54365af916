From a00f60e5919d26f33e542069a5ab54495f2b6337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 01/47] fix: accept any version for PKG1 files without an
 encver field

---
 src/util/version/pkg1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/version/pkg1.rs b/src/util/version/pkg1.rs
index 1bd785f..ece2ea8 100644
--- a/src/util/version/pkg1.rs
+++ b/src/util/version/pkg1.rs
@@ -1,3 +1,6 @@
+/// stand-in for the encver of a wz file (64-bit client) that doesn't hold one
+const WZ_VERSION_HEADER_64BIT_START: i32 = 770;
+
 pub struct VersionGen {
     encver: i32,
 
@@ -29,7 +32,8 @@ impl VersionGen {
     pub fn check_and_get_version_hash(&self) -> u32 {
         let version_hash = Self::calculate_version_hash(self.current);
 
-        if self.encver == self.current {
+        // without encver there is nothing to check the version against
+        if self.encver == self.current || self.encver == WZ_VERSION_HEADER_64BIT_START {
             return version_hash;
         }
         let enc = 0xff
-- 
2.43.0


From b823bd19e61b1ed36a5b956ba8a42752fe876a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 02/47] fix: detect the lua key when the sample ends inside a
 character

---
 src/property/lua.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/property/lua.rs b/src/property/lua.rs
index 6fa3ed9..a5a691f 100644
--- a/src/property/lua.rs
+++ b/src/property/lua.rs
@@ -75,7 +75,13 @@ impl WzLua {
                 write.decrypt_slice(&mut decoded);
             }
 
-            if String::from_utf8(decoded).is_ok() {
+            let is_text = match std::str::from_utf8(&decoded) {
+                Ok(_) => true,
+                // the sample may end in the middle of a character
+                Err(e) => e.error_len().is_none() && len < self.length,
+            };
+
+            if is_text {
                 return Some(keys);
             }
         }
-- 
2.43.0


From 0267ed1450d65eb504e527507cede7565929ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 03/47] fix: recognise a missing encver when the entry count is
 a multiple of 256

---
 src/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 771806e..a04e7dd 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -98,7 +98,8 @@ impl WzHeader {
         }
 
         if encrypted_version == 0x80 {
-            let entry_count = buf.pread_with::<i32>(self.fstart + 2, LE).ok()?;
+            // without encver, the 0x80 is the mark of a long wz_int that holds the entry count
+            let entry_count = buf.pread_with::<i32>(self.fstart + 1, LE).ok()?;
             //check entry count is valid
             if entry_count > 0 && (entry_count & 0xff) == 0 && entry_count <= 0xffff {
                 return None;
-- 
2.43.0


From 1b6621294c0397863c48a97432f49b7001ff6edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:06 +0000
Subject: [PATCH 04/47] fix: resolve the first entry name by offset from fstart
 when detecting the key

---
 src/util/string_decryptor/mod.rs | 2 +-
 src/util/version/mod.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index 44ffd2d..62cdf5d 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -80,7 +80,7 @@ pub(crate) fn try_get_first_wz_name_meta(buf: &[u8]) -> Result<WzStringMeta, rea
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.data_start + str_offset as usize;
+            let offset = reader.header.fstart + str_offset as usize;
             reader.read_wz_string_meta_at(offset + 1)?
         }
         WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => reader.read_wz_string_meta()?,
diff --git a/src/util/version/mod.rs b/src/util/version/mod.rs
index efe8418..8c85d91 100644
--- a/src/util/version/mod.rs
+++ b/src/util/version/mod.rs
@@ -139,7 +139,7 @@ pub fn verify_iv_from_wz_file(buf: &[u8], iv: &[u8; 4]) -> Result<(), reader::Er
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.data_start + str_offset as usize;
+            let offset = reader.header.fstart + str_offset as usize;
             // just check string can be valid string(instead of parse string lossy), so can prove the iv is valid
             let meta = reader.read_wz_string_meta_at(offset + 1)?;
             reader.try_resolve_wz_string_meta(
-- 
2.43.0


From 0b05ee7be70eec7a2a654d838aecdefcdd8acd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 05/47] fix: keep the given key when the first entry name can't
 verify any key

---
 src/file.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/file.rs b/src/file.rs
index 3f41763..f0ebb22 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -97,6 +97,7 @@ impl WzFile {
 
         // ensure the keys is valid or guess one
         let verified_keys = existing_keys
+            .clone()
             .and_then(|keys| {
                 if string_decryptor::verify_decryptor_from_wz_file(&map, &keys).is_ok() {
                     Some(keys)
@@ -110,7 +111,15 @@ impl WzFile {
         let reader = if let Some(keys) = verified_keys {
             WzReader::new(map).with_existing_keys(keys.clone())
         } else {
-            WzReader::new(map)
+            // nothing in the file can tell which keys are right, so trust the given one,
+            // pkg2 will calculate its own keys later
+            let reader = WzReader::new(map);
+            match existing_keys {
+                Some(keys) if reader.header.ident == PKGVersion::V1 => {
+                    reader.with_existing_keys(keys)
+                }
+                _ => reader,
+            }
         };
 
         let offset = reader.header.data_start;
-- 
2.43.0


From 982aa0351b571ea20bd1dd82f77a86bc86459905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 06/47] fix: keep encver 0x80 of a file too short to hold a
 long entry count

---
 src/header.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index a04e7dd..399e13e 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -99,7 +99,9 @@ impl WzHeader {
 
         if encrypted_version == 0x80 {
             // without encver, the 0x80 is the mark of a long wz_int that holds the entry count
-            let entry_count = buf.pread_with::<i32>(self.fstart + 1, LE).ok()?;
+            let entry_count = buf
+                .pread_with::<i32>(self.fstart + 1, LE)
+                .unwrap_or_default();
             //check entry count is valid
             if entry_count > 0 && (entry_count & 0xff) == 0 && entry_count <= 0xffff {
                 return None;
-- 
2.43.0


From 22dd55b078bbac3c889b2fedf630a659781d38a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 07/47] fix: find the hash whose bits the rotation maps onto
 themselves

When the rotation amount is a multiple of 32 the constrained bit is the one
being chosen, which v_hash does not hold yet.
---
 src/util/version/pkg2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 68bb08c..4a4c813 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -410,7 +410,7 @@ fn backtrack<'a, F: Fn(u32, u32, u32) -> bool>(
 
         let future_v_idx = (bit_idx.wrapping_add(info.s)) & 0x1f;
         if future_v_idx <= bit_idx {
-            let known_v_bit = (v_hash >> future_v_idx) & 1;
+            let known_v_bit = ((v_hash | (v_bit << bit_idx)) >> future_v_idx) & 1;
             let target_v_xor_h2 = known_v_bit ^ ((info.target >> future_v_idx) & 1);
             if current_lhs_bit != target_v_xor_h2 {
                 continue;
-- 
2.43.0


From 6d95b1f004bef9eeb7cd1dfad9ef836eed83c945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 08/47] fix: verify the decrypted entry count of a 64-bit PKG2
 directory

The sign bit of the stored count is random, so about half of the archives with
subdirectories were refused.
---
 src/directory.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index 2bb258a..8f7cab9 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -301,7 +301,7 @@ impl WzDirectory {
 
             entry.offset = offset_calculator(&reader.header, &meta)?;
 
-            if entry.verify(&reader).is_err() {
+            if entry.verify(&reader, self.hash, &self.profile).is_err() {
                 return Err(Error::InvalidWzVersion);
             }
         }
@@ -411,7 +411,12 @@ impl WzDirectoryEntry {
         Ok(entry)
     }
 
-    pub fn verify(&self, reader: &WzSliceReader) -> Result<(), Error> {
+    pub fn verify(
+        &self,
+        reader: &WzSliceReader,
+        hash: u64,
+        profile: &WzProfile,
+    ) -> Result<(), Error> {
         if !reader.is_valid_pos(self.offset + self.size) {
             return Err(Error::InvalidWzVersion);
         }
@@ -426,7 +431,9 @@ impl WzDirectoryEntry {
             reader.seek(self.offset);
 
             let entry_count = if reader.header.is_pkg2_64() {
-                reader.read_wz_int64()?
+                let entry_count_calculator = profile.offset_version.get_entry_count_calculator();
+                // the stored count is encrypted, its sign means nothing
+                entry_count_calculator(&reader.header, hash, reader.read_wz_int64()?)? as i64
             } else {
                 reader.read_wz_int()? as i64
             };
-- 
2.43.0


From 349215a8c72ce9dcbed3e8c2314eefca518c361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 09/47] fix: include 0xFFFFFFFF in the PKG2 hash search

---
 src/util/version/pkg2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 4a4c813..472fe7e 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -436,12 +436,12 @@ fn brute_force_hash<F: Fn(u32, u32, u32) -> bool + Sync>(
     verifier: &F,
 ) -> Vec<u32> {
     #[cfg(feature = "rayon")]
-    return (0_u32..u32::MAX)
+    return (0_u32..=u32::MAX)
         .into_par_iter()
         .filter(|target_hash| verifier(hash1, hash2, *target_hash))
         .collect();
     #[cfg(not(feature = "rayon"))]
-    return (0_u32..u32::MAX)
+    return (0_u32..=u32::MAX)
         .into_iter()
         .filter(|target_hash| verifier(hash1, hash2, *target_hash))
         .collect();
-- 
2.43.0


From a5eff6427516835f1c7fc9d5fb3fdcaf45df5994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 10/47] fix: read PKG2 name lengths of -128 and -32768 without
 overflow

---
 src/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index e392b0f..a0a6488 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -522,7 +522,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(WzStringMeta::empty())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let meta = WzStringMeta::new_pkg2_dir(self.pos.get(), length as u32);
             self.skip(length);
             Ok(meta)
@@ -534,7 +534,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(WzStringMeta::empty())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let meta = WzStringMeta::new_pkg2_dir(self.pos.get(), length as u32);
             self.skip(length);
             Ok(meta)
@@ -559,7 +559,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(String::new())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let offset = self.pos.get();
             let bytes = self.resolve_pkg2_dir_raw(offset, length)?;
 
-- 
2.43.0


From df5677825179eb21867e103ba25fbf7548b5359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 11/47] fix: report strings that do not fit the buffer instead
 of overflowing

Lengths and relative offsets come from the file: negative or huge ones
panicked in builds with overflow checks.
---
 src/reader.rs | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index a0a6488..cca3a45 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -98,10 +98,10 @@ pub trait Reader {
         }
     }
     fn resolve_unicode_raw(&self, offset: usize, length: usize) -> Result<Vec<u16>> {
-        let decrypted = self.get_decrypt_slice(offset..(offset + length))?;
+        let decrypted = self.get_decrypt_slice(offset..offset.saturating_add(length))?;
         let mut strvec = Vec::with_capacity(length / 2);
 
-        for (i, chunk) in decrypted.chunks(2).enumerate() {
+        for (i, chunk) in decrypted.chunks_exact(2).enumerate() {
             let c = u16::from_le_bytes([chunk[0], chunk[1]]);
             strvec.push(resolve_unicode_char(c, i as i32));
         }
@@ -109,7 +109,7 @@ pub trait Reader {
         Ok(strvec)
     }
     fn resolve_ascii_raw(&self, offset: usize, length: usize) -> Result<Vec<u8>> {
-        let mut decrypted = self.get_decrypt_slice(offset..(offset + length))?;
+        let mut decrypted = self.get_decrypt_slice(offset..offset.saturating_add(length))?;
 
         decrypted.iter_mut().enumerate().for_each(|(i, byte)| {
             *byte = resolve_ascii_char(*byte, i as i32);
@@ -118,10 +118,10 @@ pub trait Reader {
         Ok(decrypted)
     }
     fn resolve_pkg2_dir_raw(&self, offset: usize, length: usize) -> Result<Vec<u16>> {
-        let decrypted = self.get_pkg2_decrypt_slice(offset..(offset + length))?;
+        let decrypted = self.get_pkg2_decrypt_slice(offset..offset.saturating_add(length))?;
 
         Ok(decrypted
-            .chunks(2)
+            .chunks_exact(2)
             .map(|c| u16::from_le_bytes([c[0], c[1]]))
             .collect())
     }
@@ -335,7 +335,7 @@ impl<'a> WzSliceReader<'a> {
     }
     #[inline]
     pub fn available(&self) -> usize {
-        self.get_size() - self.pos.get()
+        self.get_size().saturating_sub(self.pos.get())
     }
     #[inline]
     pub fn seek(&self, pos: usize) {
@@ -343,7 +343,7 @@ impl<'a> WzSliceReader<'a> {
     }
     #[inline]
     pub fn skip(&self, len: usize) {
-        self.pos.set(self.pos.get() + len);
+        self.pos.set(self.pos.get().saturating_add(len));
     }
     #[inline]
     pub fn save_pos(&self) {
@@ -357,70 +357,70 @@ impl<'a> WzSliceReader<'a> {
     pub fn read_u8(&self) -> Result<u8> {
         let pos = self.pos.get();
         let res = self.read_u8_at(pos);
-        self.pos.set(pos + 1);
+        self.pos.set(pos.saturating_add(1));
         res
     }
     #[inline]
     pub fn read_u16(&self) -> Result<u16> {
         let pos = self.pos.get();
         let res = self.read_u16_at(pos);
-        self.pos.set(pos + 2);
+        self.pos.set(pos.saturating_add(2));
         res
     }
     #[inline]
     pub fn read_u32(&self) -> Result<u32> {
         let pos = self.pos.get();
         let res = self.read_u32_at(pos);
-        self.pos.set(pos + 4);
+        self.pos.set(pos.saturating_add(4));
         res
     }
     #[inline]
     pub fn read_u64(&self) -> Result<u64> {
         let pos = self.pos.get();
         let res = self.read_u64_at(pos);
-        self.pos.set(pos + 8);
+        self.pos.set(pos.saturating_add(8));
         res
     }
     #[inline]
     pub fn read_i8(&self) -> Result<i8> {
         let pos = self.pos.get();
         let res = self.read_i8_at(pos);
-        self.pos.set(pos + 1);
+        self.pos.set(pos.saturating_add(1));
         res
     }
     #[inline]
     pub fn read_i16(&self) -> Result<i16> {
         let pos = self.pos.get();
         let res = self.read_i16_at(pos);
-        self.pos.set(pos + 2);
+        self.pos.set(pos.saturating_add(2));
         res
     }
     #[inline]
     pub fn read_i32(&self) -> Result<i32> {
         let pos = self.pos.get();
         let res = self.read_i32_at(pos);
-        self.pos.set(pos + 4);
+        self.pos.set(pos.saturating_add(4));
         res
     }
     #[inline]
     pub fn read_i64(&self) -> Result<i64> {
         let pos = self.pos.get();
         let res = self.read_i64_at(pos);
-        self.pos.set(pos + 8);
+        self.pos.set(pos.saturating_add(8));
         res
     }
     #[inline]
     pub fn read_float(&self) -> Result<f32> {
         let pos = self.pos.get();
         let res = self.read_float_at(pos);
-        self.pos.set(pos + 4);
+        self.pos.set(pos.saturating_add(4));
         res
     }
     #[inline]
     pub fn read_double(&self) -> Result<f64> {
         let pos = self.pos.get();
         let res = self.read_double_at(pos);
-        self.pos.set(pos + 8);
+        self.pos.set(pos.saturating_add(8));
         res
     }
     #[inline]
@@ -446,7 +446,7 @@ impl<'a> WzSliceReader<'a> {
             return Ok(String::new());
         }
 
-        let unicode_u8_len = (len * 2) as usize;
+        let unicode_u8_len = len as u32 as usize * 2;
 
         let string =
             self.resolve_wz_string_meta(&WzStringType::Unicode, self.pos.get(), unicode_u8_len)?;
@@ -456,7 +456,7 @@ impl<'a> WzSliceReader<'a> {
         Ok(string)
     }
     pub fn read_ascii_string(&self, sl: i8) -> Result<String> {
-        let len = self.read_ascii_str_len(sl)? as usize;
+        let len = self.read_ascii_str_len(sl)? as u32 as usize;
         if len == 0 {
             return Ok(String::new());
         }
@@ -486,7 +486,7 @@ impl<'a> WzSliceReader<'a> {
             WzStringType::Empty => Ok(WzStringMeta::empty()),
             WzStringType::Unicode => {
                 if small_len == i8::MAX {
-                    let length = self.read_i32()? as u32 * 2;
+                    let length = (self.read_i32()? as u32).saturating_mul(2);
                     /* remember skip char reading */
                     let meta = WzStringMeta::new_unicode(self.pos.get(), length);
                     self.skip(length as usize);
@@ -500,8 +500,8 @@ impl<'a> WzSliceReader<'a> {
             }
             WzStringType::Ascii => {
                 if small_len == i8::MIN {
-                    let length = self.read_i32()?;
-                    let meta = WzStringMeta::new_ascii(self.pos.get(), length as u32);
+                    let length = self.read_i32()? as u32;
+                    let meta = WzStringMeta::new_ascii(self.pos.get(), length);
                     self.skip(length as usize);
                     Ok(meta)
                 } else {
@@ -586,7 +586,7 @@ impl<'a> WzSliceReader<'a> {
             0 | 0x73 => self.read_wz_string(),
             1 | 0x1B => {
                 let append_offset = self.read_i32()?;
-                self.read_wz_string_at_offset(offset + append_offset as usize)
+                self.read_wz_string_at_offset(offset.wrapping_add(append_offset as usize))
             }
             _ => Ok(String::new()),
         }
@@ -599,7 +599,7 @@ impl<'a> WzSliceReader<'a> {
             0 | 0x73 => self.read_wz_string_meta(),
             1 | 0x1B => {
                 let append_offset = self.read_i32()?;
-                self.read_wz_string_meta_at(wz_img_offset + append_offset as usize)
+                self.read_wz_string_meta_at(wz_img_offset.wrapping_add(append_offset as usize))
             }
             _ => Ok(WzStringMeta::empty()),
         }
-- 
2.43.0


From ea8bd562e7df4c5303953136f3fbe8a9185119a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:12 +0000
Subject: [PATCH 12/47] fix: report reads past the buffer in the string
 functions instead of panicking

---
 src/reader.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index cca3a45..82a7cad 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -837,7 +837,11 @@ pub fn read_wz_string_block(buf: &[u8], offset: usize) -> Result<String> {
         0 | 0x73 => read_wz_string(&buf[1..]),
         1 | 0x1B => {
             let append_offset = read_i32_at(buf, 1)? as usize;
-            read_wz_string(&buf[append_offset + offset..])
+            let start = append_offset.wrapping_add(offset);
+            let string = buf
+                .get(start..)
+                .ok_or(Error::OutOfBounds(start, buf.len()))?;
+            read_wz_string(string)
         }
         _ => Ok(String::new()),
     }
@@ -870,8 +874,8 @@ pub fn read_wz_long(buf: &[u8], offset: Option<usize>) -> Result<i64> {
 }
 
 pub fn read_unicode_string(buf: &[u8], sl: i8) -> Result<String> {
-    let len;
-    let mut offset: i32 = 0;
+    let len: i32;
+    let mut offset: usize = 0;
 
     if sl == i8::MAX {
         len = read_i32_at(buf, 0)?;
@@ -884,16 +888,19 @@ pub fn read_unicode_string(buf: &[u8], sl: i8) -> Result<String> {
         return Ok(String::new());
     }
 
-    let strvec: Vec<u16> = (0..len)
-        .map(|i| resolve_unicode_char(read_u16_at(buf, (i * 2 + offset) as usize).unwrap(), i))
-        .collect();
+    let strvec = (0..len as u32)
+        .map(|i| {
+            let c = read_u16_at(buf, i as usize * 2 + offset)?;
+            Ok(resolve_unicode_char(c, i as i32))
+        })
+        .collect::<Result<Vec<u16>>>()?;
 
     Ok(String::from_utf16_lossy(&strvec).to_string())
 }
 
 pub fn read_ascii_string(buf: &[u8], sl: i8) -> Result<String> {
     let len: i32;
-    let mut offset: i32 = 0;
+    let mut offset: usize = 0;
 
     if sl == i8::MIN {
         len = read_i32_at(buf, 0)?;
@@ -906,9 +913,9 @@ pub fn read_ascii_string(buf: &[u8], sl: i8) -> Result<String> {
         return Ok(String::new());
     }
 
-    let strvec: Vec<u8> = (0..len)
-        .map(|i| resolve_ascii_char(read_u8_at(buf, (i + offset) as usize).unwrap(), i))
-        .collect();
+    let strvec = (0..len as u32)
+        .map(|i| Ok(resolve_ascii_char(read_u8_at(buf, i as usize + offset)?, i as i32)))
+        .collect::<Result<Vec<u8>>>()?;
 
     Ok(String::from_utf8_lossy(&strvec).to_string())
 }
-- 
2.43.0


From a95de02e5cf4e328b8fb1ca89f0fd7bf4ba180b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 13/47] fix: count UTF-16 units, not characters, in the length
 of a WzString

Characters outside the basic plane take two units, the text lost its end.
---
 src/property/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property/string.rs b/src/property/string.rs
index 66f6810..12d609c 100644
--- a/src/property/string.rs
+++ b/src/property/string.rs
@@ -119,7 +119,7 @@ impl WzString {
             len = str.len();
             WzStringType::Ascii
         } else {
-            len = str.chars().count() * 2;
+            len = str.encode_utf16().count() * 2;
             WzStringType::Unicode
         };
 
@@ -140,7 +140,7 @@ impl WzString {
     pub fn from_str_pkg2_dir(str: &str) -> Self {
         let mut keys = Pkg2Decryptor::new_with_key(0x1A2B3C4D, DecrypterType::KMST1198);
 
-        let len = str.chars().count() * 2;
+        let len = str.encode_utf16().count() * 2;
 
         let encrypted = encrypt_str(&mut keys, str, &WzStringType::Pkg2Dir);
 
-- 
2.43.0


From 5fd0a898038d604bd305d40b08a6d58ce9281ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 14/47] fix: drop the keys of the old iv when an EcbDecryptor
 gets a new one

---
 src/util/string_decryptor/ecb_decryptor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/string_decryptor/ecb_decryptor.rs b/src/util/string_decryptor/ecb_decryptor.rs
index 49935b3..a3ed991 100644
--- a/src/util/string_decryptor/ecb_decryptor.rs
+++ b/src/util/string_decryptor/ecb_decryptor.rs
@@ -64,6 +64,9 @@ impl Decryptor for EcbDecryptor {
     fn set_iv(&mut self, iv: u64, enc_type: DecrypterType) {
         self.enc_type = enc_type;
         self.iv = (iv as u32).to_le_bytes();
+        self.without_decrypt = iv as u32 == 0;
+        // the keys of the old iv
+        self.keys.clear();
     }
 
     fn get_iv_hash(&self) -> u64 {
-- 
2.43.0


From 0dc4b16f4718f75eb2a490bd1de10d03fe4ea3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 15/47] fix: EcbDecryptor::at with a zero iv panicked

---
 src/util/string_decryptor/ecb_decryptor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/string_decryptor/ecb_decryptor.rs b/src/util/string_decryptor/ecb_decryptor.rs
index a3ed991..aacc4b0 100644
--- a/src/util/string_decryptor/ecb_decryptor.rs
+++ b/src/util/string_decryptor/ecb_decryptor.rs
@@ -86,6 +86,9 @@ impl Decryptor for EcbDecryptor {
 
     /// force get key at index, will expand key size if not enough.
     fn at(&mut self, index: usize) -> &u8 {
+        if self.without_decrypt {
+            return &0;
+        }
         if self.keys.len() <= index {
             self.ensure_key_size(index + 1).unwrap();
         }
-- 
2.43.0


From c6ee3de8f64cc829d094deae9a94dca1a3f8613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 16/47] fix: encrypt PKG2 names with the key they are read with

---
 src/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 82a7cad..e0f4edb 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -255,7 +255,11 @@ impl<T: AsRef<[u8]>> WzBaseReader<T> {
         if meta_type == &WzStringType::Empty {
             return Vec::new();
         }
-        let mut keys = self.keys.write().unwrap();
+        let keys = match meta_type {
+            WzStringType::Pkg2Dir => &self.pkg2_keys,
+            _ => &self.keys,
+        };
+        let mut keys = keys.write().unwrap();
         encrypt_str(keys.deref_mut(), str, meta_type)
     }
 }
-- 
2.43.0


From 674d9cd5f8cf9dccbada9255f1aa488766237499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:31 +0000
Subject: [PATCH 17/47] fix: split a path at its image node whatever the names
 look like

A path ending at an image not called .img panicked, a second .img segment was
cut off, and directories called .img were taken for images.
---
 src/util/node_util.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 964a801..62ed20c 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -1,4 +1,4 @@
-use crate::{node::Error, WzNode, WzNodeArc, WzNodeCast};
+use crate::{node::Error, WzNode, WzNodeArc, WzNodeCast, WzObjectType};
 use std::sync::Arc;
 
 #[inline]
@@ -114,16 +114,6 @@ pub fn get_image_node_from_path<'a>(
         return None;
     }
 
-    if path.contains(".img") {
-        let mut pathes = path.split_inclusive(".img");
-        let img_path = pathes.next()?;
-        let rest_path = pathes.next()?.strip_prefix('/')?;
-
-        let image_node = node.read().unwrap().at_path(img_path)?;
-
-        return Some((image_node, rest_path));
-    }
-
     let mut node = node.clone();
     let mut slash_index = 0;
     for split_path in path.split('/') {
@@ -131,8 +121,9 @@ pub fn get_image_node_from_path<'a>(
         if let Some(target) = target {
             node = target;
             slash_index += split_path.len() + 1;
-            if node.read().unwrap().try_as_image().is_some() {
-                let rest = path.split_at(slash_index).1;
+            if is_image_node(&node) {
+                // nothing is left when the image itself is the end of the path
+                let rest = path.get(slash_index..)?;
                 return Some((node, rest));
             }
         } else {
@@ -142,6 +133,14 @@ pub fn get_image_node_from_path<'a>(
     None
 }
 
+#[inline]
+fn is_image_node(node: &WzNodeArc) -> bool {
+    matches!(
+        node.read().unwrap().object_type,
+        WzObjectType::Image(_) | WzObjectType::MsImage(_)
+    )
+}
+
 #[inline]
 /// get a certain node without parsing all node in the way
 pub fn get_node_without_parse(root: &WzNodeArc, path: &str) -> Option<WzNodeArc> {
-- 
2.43.0


From 62d827f33d6c78be1364e5b8c73b4f9dbd0032c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 18/47] fix: direct lookup goes through canvases, convexes and
 raw data

Their children are not where those of a plain property are, so a path through
them read garbage. A path that is not found in a list ends there.
---
 src/util/parse_property.rs | 77 ++++++++++++++++++++++++++++++++------
 1 file changed, 66 insertions(+), 11 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 56b6994..a15aadd 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -405,6 +405,38 @@ pub fn parse_more(
     }
 }
 
+/// What a property block holds behind its type name.
+enum BlockChildren {
+    List,
+    /// unnamed blocks without a size, named by their index
+    Convex,
+}
+
+/// Read the start of a property block up to its children, `None` if it can't have any.
+fn seek_block_children(
+    reader: &WzSliceReader,
+    origin_offset: usize,
+) -> Result<Option<BlockChildren>, WzPropertyParseError> {
+    match reader.read_wz_string_block(origin_offset)?.as_str() {
+        "Property" => {}
+        "Canvas" => {
+            reader.skip(1);
+            if reader.read_u8()? != 1 {
+                return Ok(None);
+            }
+        }
+        "RawData" => {
+            if reader.read_u8()? != 0x01 || reader.read_u8()? != 1 {
+                return Ok(None);
+            }
+        }
+        "Shape2D#Convex2D" => return Ok(Some(BlockChildren::Convex)),
+        _ => return Ok(None),
+    }
+    reader.skip(2);
+    Ok(Some(BlockChildren::List))
+}
+
 /// Direct get node from path with providing reader. see [`crate::WzImage::at_path`].
 pub fn get_node(
     path: &str,
@@ -418,10 +450,40 @@ pub fn get_node(
 
     let mut pathes = path.split('/');
     let mut current_path = pathes.next();
+    let mut children = Some(BlockChildren::List);
+    let mut end_of_block = reader.buf.len();
 
-    while let Some(current_name) = current_path {
+    while let (Some(current_name), Some(current_children)) = (current_path, children.take()) {
         let entry_count = reader.read_wz_int()?;
         let next_path = pathes.next();
+        current_path = next_path;
+
+        if let BlockChildren::Convex = current_children {
+            for i in 0..entry_count {
+                let name = i.to_string();
+                let is_target = name == current_name;
+
+                if is_target && next_path.is_some() {
+                    children = seek_block_children(reader, origin_offset)?;
+                    break;
+                }
+
+                let result = parse_extended_prop(
+                    None,
+                    org_reader,
+                    reader,
+                    end_of_block,
+                    origin_offset,
+                    name.into(),
+                )?;
+
+                if is_target {
+                    return Ok((result.0, result.1));
+                }
+            }
+            continue;
+        }
+
         for _ in 0..entry_count {
             let name = reader.read_wz_string_block(origin_offset)?;
             let property_type = reader.read_u8()?;
@@ -473,15 +535,12 @@ pub fn get_node(
                     }
                 }
                 9 => {
+                    let block_size = reader.read_u32()?;
                     if name == current_name {
-                        current_path = next_path;
-                        // skip block size
-                        reader.skip(4);
-                        reader.read_wz_string_block_meta(origin_offset)?;
-                        reader.skip(2);
+                        end_of_block = reader.pos.get() + block_size as usize;
+                        children = seek_block_children(reader, origin_offset)?;
                         break;
                     } else {
-                        let block_size = reader.read_u32()?;
                         reader.skip(block_size as usize);
                     }
                 }
@@ -494,10 +553,6 @@ pub fn get_node(
                 }
             }
         }
-
-        if next_path.is_none() {
-            break;
-        }
     }
 
     Err(WzPropertyParseError::NodeNotFound)
-- 
2.43.0


From 0e2e7de2278e97c93efea530d0623b30ee54e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:39 +0000
Subject: [PATCH 19/47] fix: resolve . in get_resolved_uol_path as documented

---
 src/util/node_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 62ed20c..2d72fa1 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -45,7 +45,7 @@ pub fn get_resolved_uol_path(path: &str, uol_path: &str) -> String {
     for p in uol_path.split('/') {
         if p == ".." && !pathes.is_empty() {
             pathes.pop();
-        } else {
+        } else if p != "." {
             pathes.push(p);
         }
     }
-- 
2.43.0


From c62efb217951afa98222a4e97ad6931541063b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:27 +0000
Subject: [PATCH 20/47] fix: a released directory parses to its entries again

---
 src/node.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 680878a..a8d94b6 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -234,6 +234,8 @@ impl WzNode {
         match &mut self.object_type {
             WzObjectType::Directory(directory) => {
                 directory.is_parsed = false;
+                // the entries are read again by the next parse
+                directory.reset_entry_parse();
             }
             WzObjectType::File(file) => {
                 file.is_parsed = false;
-- 
2.43.0


From 65375782e9fbf2c7460a81ed81a69e466f9cacaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 21/47] fix: size block-compressed canvases by whole 4x4 blocks
 (BC7, DXT3SM)

---
 src/property/png.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index 6f93784..ac62e9b 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -216,11 +216,9 @@ impl WzPng {
             WzPngFormat::BGRA8888 | WzPngFormat::RGBA1010102 => {
                 Ok((self.width * self.height * 4) as usize)
             }
-            WzPngFormat::DXT3SM => Ok((self.width * self.height * 4) as usize),
-            WzPngFormat::DXT3 | WzPngFormat::DXT5 => {
+            WzPngFormat::DXT3 | WzPngFormat::DXT3SM | WzPngFormat::DXT5 | WzPngFormat::BC7 => {
                 Ok((self.width.div_ceil(4) * self.height.div_ceil(4) * 16) as usize)
             }
-            WzPngFormat::BC7 => Ok((self.width * (self.height & !3)) as usize),
             WzPngFormat::A8 => Ok((self.width * self.height) as usize),
             WzPngFormat::RGBA32Float => Ok((self.width * self.height * 16) as usize),
             WzPngFormat::RGB565_517 => {
-- 
2.43.0


From 5c24ce587332ec9b3d6309a54ede6d2f5b8042a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:16 +0000
Subject: [PATCH 22/47] fix: DXT3/DXT5 canvases whose size is not a multiple of
 4

---
 src/property/png.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index ac62e9b..cc26b91 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -380,7 +380,7 @@ fn get_image_from_dxt3(
         })?;
 
     // combine image buffer
-    let grid_row_count = width / 4;
+    let grid_row_count = width.div_ceil(4);
     let img_buffer = image::ImageBuffer::from_par_fn(width, height, |x, y| {
         *image_buffer_chunks[(x / 4 + y / 4 * grid_row_count) as usize].get_pixel(x % 4, y % 4)
     });
@@ -402,7 +402,7 @@ fn get_image_from_dxt3(
 
     for y in (0..height).step_by(4) {
         for x in (0..width).step_by(4) {
-            let offset = (y * width + x * 4) as usize;
+            let offset = ((y / 4 * width.div_ceil(4) + x / 4) * 16) as usize;
             let chunk = &raw_data[offset..offset + 16];
             expand_alpha_table_dxt3(&mut alpha_table, &chunk[..8]);
 
@@ -412,8 +412,8 @@ fn get_image_from_dxt3(
             expand_color_table(&mut color_table, u0, u1);
             expand_color_index_table(&mut color_idx_table, &chunk[12..]);
 
-            for j in 0..4 {
-                for i in 0..4 {
+            for j in 0..4.min(height - y) {
+                for i in 0..4.min(width - x) {
                     let idx = (j * 4 + i) as usize;
                     let color_idx = color_idx_table[idx] as usize;
                     let color = color_table[color_idx];
@@ -477,7 +477,7 @@ fn get_image_from_dxt5(
             Ok(acc)
         })?;
 
-    let grid_row_count = width / 4;
+    let grid_row_count = width.div_ceil(4);
     let img_buffer = image::ImageBuffer::from_par_fn(width, height, |x, y| {
         *image_buffer_chunks[(x / 4 + y / 4 * grid_row_count) as usize].get_pixel(x % 4, y % 4)
     });
@@ -500,7 +500,7 @@ fn get_image_from_dxt5(
 
     for y in (0..height).step_by(4) {
         for x in (0..width).step_by(4) {
-            let offset = (y * width + x * 4) as usize;
+            let offset = ((y / 4 * width.div_ceil(4) + x / 4) * 16) as usize;
             let chunk = &raw_data[offset..offset + 16];
             expand_alpha_table_dxt5(&mut alpha_table, chunk[0], chunk[1]);
             expand_alpha_index_table_dxt5(&mut alpha_idx_table, &chunk[2..8]);
@@ -511,8 +511,8 @@ fn get_image_from_dxt5(
             expand_color_table(&mut color_table, u0, u1);
             expand_color_index_table(&mut color_idx_table, &chunk[12..]);
 
-            for j in 0..4 {
-                for i in 0..4 {
+            for j in 0..4.min(height - y) {
+                for i in 0..4.min(width - x) {
                     let idx = (j * 4 + i) as usize;
                     let color_idx = color_idx_table[idx] as usize;
                     let color = color_table[color_idx];
-- 
2.43.0


From fd8216ffb37ac633df8ce7f1302d50522e8e037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:11 +0000
Subject: [PATCH 23/47] fix: canvas links that lead back to the canvas, or
 through it, hang or overflow the stack

---
 src/property/png.rs | 59 ++++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index cc26b91..db5cf8b 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -53,30 +53,51 @@ type ImageBufferRgbChunk = ImageBuffer<Rgb<u8>, Vec<u8>>;
 
 /// A helper get image from `WzNodeArc`, will also resolve `_inlink` or `_outlink`
 pub fn get_image(node: &WzNodeArc) -> Result<DynamicImage, WzPngParseError> {
-    let node_read = node.read().unwrap();
-    match &node_read.object_type {
-        WzObjectType::Property(WzSubProperty::PNG(png)) => {
-            let inlink_target = node_read
-                .at("_inlink")
-                .and_then(|node| resolve_string_from_node(&node).ok())
-                .and_then(|inlink| node_util::resolve_inlink(&inlink, node));
-
-            if let Some(target) = inlink_target {
-                return get_image(&target);
-            }
+    let mut visited: Vec<WzNodeArc> = Vec::new();
+    let mut node = Arc::clone(node);
 
-            let outlink_target = node_read
-                .at("_outlink")
-                .and_then(|node| resolve_string_from_node(&node).ok())
-                .and_then(|outlink| node_util::resolve_outlink(&outlink, node, true));
+    loop {
+        // links that lead back to a canvas already passed never reach an image
+        if visited.iter().any(|passed| Arc::ptr_eq(passed, &node)) {
+            return Err(WzPngParseError::LinkError);
+        }
 
-            if let Some(target) = outlink_target {
-                return get_image(&target);
+        let (inlink, outlink) = {
+            let node_read = node.read().unwrap();
+            if !matches!(
+                node_read.object_type,
+                WzObjectType::Property(WzSubProperty::PNG(_))
+            ) {
+                return Err(WzPngParseError::NotPngProperty);
             }
 
-            png.extract_png()
+            let get_link = |name: &str| {
+                node_read
+                    .at(name)
+                    .and_then(|node| resolve_string_from_node(&node).ok())
+            };
+
+            (get_link("_inlink"), get_link("_outlink"))
+        };
+
+        // the links are followed without holding the node, the target can be below the node itself
+        let target = inlink
+            .and_then(|inlink| node_util::resolve_inlink(&inlink, &node))
+            .or_else(|| {
+                outlink.and_then(|outlink| node_util::resolve_outlink(&outlink, &node, true))
+            });
+
+        match target {
+            Some(target) => {
+                visited.push(std::mem::replace(&mut node, target));
+            }
+            None => {
+                return match &node.read().unwrap().object_type {
+                    WzObjectType::Property(WzSubProperty::PNG(png)) => png.extract_png(),
+                    _ => Err(WzPngParseError::NotPngProperty),
+                }
+            }
         }
-        _ => Err(WzPngParseError::NotPngProperty),
     }
 }
 
-- 
2.43.0


From d67ba9f7e1b8bfbb5674644d6ea5c409f6a4813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 24/47] fix: resolve_outlink deadlocks when the caller walks
 the tree

---
 src/directory.rs      |  1 +
 src/util/node_util.rs | 27 ++++++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/directory.rs b/src/directory.rs
index 8f7cab9..81be764 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -136,6 +136,7 @@ impl WzDirectory {
                 dir.profile = self.profile.clone();
                 dir.hash = self.hash;
                 let children = dir.resolve_children(node)?;
+                dir.is_parsed = true;
 
                 for (name, child) in children {
                     write.children.insert(name, child);
diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 2d72fa1..0c59974 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -21,12 +21,37 @@ pub fn resolve_outlink(path: &str, node: &WzNodeArc, force_parse: bool) -> Optio
     let parent_wz_base = node.read().unwrap().get_base_wz_file()?;
 
     if force_parse {
-        parent_wz_base.write().unwrap().at_path_parsed(path).ok()
+        // only nodes that really need a parse are locked for writing, the caller may be holding
+        // (e.g. through `walk_node`) a read lock on every node above
+        path.split('/').try_fold(parent_wz_base, |node, name| {
+            let (target, is_parsed) = {
+                let node_read = node.read().unwrap();
+                (node_read.at(name), is_parsed(&node_read))
+            };
+            if target.is_some() || is_parsed {
+                return target;
+            }
+            parse_node(&node).ok()?;
+            let target = node.read().unwrap().at(name);
+            target
+        })
     } else {
         parent_wz_base.read().unwrap().at_path(path)
     }
 }
 
+#[inline]
+fn is_parsed(node: &WzNode) -> bool {
+    match &node.object_type {
+        WzObjectType::File(file) => file.is_parsed,
+        WzObjectType::MsFile(file) => file.is_parsed,
+        WzObjectType::Directory(directory) => directory.is_parsed,
+        WzObjectType::Image(image) => image.is_parsed,
+        WzObjectType::MsImage(_) => false,
+        _ => true,
+    }
+}
+
 #[inline]
 /// Make sure WzNode tree's all node has correct parent.
 pub fn resolve_childs_parent(node: &WzNodeArc) {
-- 
2.43.0


From e29447e4ff3c766e3dd4076ac167c041ee532688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:45 +0000
Subject: [PATCH 25/47] fix: an empty file is no image instead of a panic

---
 src/util/version/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/version/mod.rs b/src/util/version/mod.rs
index 8c85d91..ef152cb 100644
--- a/src/util/version/mod.rs
+++ b/src/util/version/mod.rs
@@ -81,7 +81,7 @@ pub fn verify_iv_from_wz_img(buf: &[u8], iv: &[u8; 4]) -> bool {
 /// Try to guess IV from wz image use fixed value. Currently will try GMS, EMS, BMS.
 pub fn guess_iv_from_wz_img(buf: &[u8]) -> Option<[u8; 4]> {
     // not support other then WzImageHeaderType::WithoutOffset
-    if buf[0] != 0x73 {
+    if buf.first() != Some(&0x73) {
         return None;
     }
 
-- 
2.43.0


From 19abdd8afb2988a69df3173848b5999527b10632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:20 +0000
Subject: [PATCH 26/47] fix: simple JSON export panics on NaN and infinite
 numbers

---
 src/property/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property/mod.rs b/src/property/mod.rs
index 2e2d368..85e1039 100644
--- a/src/property/mod.rs
+++ b/src/property/mod.rs
@@ -92,8 +92,8 @@ impl From<WzValue> for Value {
             WzValue::Short(value) => value.into(),
             WzValue::Int(value) => value.into(),
             WzValue::Long(value) => value.into(),
-            WzValue::Float(value) => Value::Number(Number::from_f64(value.into()).unwrap()),
-            WzValue::Double(value) => Value::Number(Number::from_f64(value).unwrap()),
+            WzValue::Float(value) => Number::from_f64(value.into()).into(),
+            WzValue::Double(value) => Number::from_f64(value).into(),
             WzValue::Vector(Vector2D(x, y)) => {
                 let mut vec = serde_json::Map::new();
                 vec.insert("x".to_string(), x.into());
-- 
2.43.0


From 7056bd6cc770eb8f1b67d1e3bda3c6563950676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 27/47] fix: null values and non-finite numbers read back from
 full JSON as properties

---
 src/property/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/property/mod.rs b/src/property/mod.rs
index 85e1039..70d81b0 100644
--- a/src/property/mod.rs
+++ b/src/property/mod.rs
@@ -49,7 +49,6 @@ pub enum WzSubProperty {
     Convex,
     Sound(Box<WzSound>),
     PNG(Box<WzPng>),
-    #[cfg_attr(feature = "serde", serde(other))]
     Property,
 }
 
@@ -69,7 +68,9 @@ pub enum WzValue {
     #[cfg_attr(feature = "serde", serde(alias = "number"))]
     Int(i32),
     Long(i64),
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "null_as_nan"))]
     Float(f32),
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "null_as_nan"))]
     Double(f64),
     Vector(Vector2D),
     UOL(WzString),
@@ -80,6 +81,15 @@ pub enum WzValue {
     Null,
 }
 
+/// Json has no NaN or infinity, they are written as `null`.
+#[cfg(feature = "serde")]
+fn null_as_nan<'de, D, T>(deserializer: D) -> Result<T, D::Error>
+where
+    D: serde::Deserializer<'de>,
+    T: Deserialize<'de> + From<f32>,
+{
+    Ok(Option::deserialize(deserializer)?.unwrap_or(f32::NAN.into()))
+}
 
 #[cfg(feature = "json")]
 impl From<WzValue> for Value {
-- 
2.43.0


From dda62240d41e7f072dff8d4ef1e8ff32b4eac393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:14 +0000
Subject: [PATCH 28/47] fix: opening an .ms file panics when the version 1
 header does not fit it

---
 src/ms/header.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/ms/header.rs b/src/ms/header.rs
index 4ee8cf2..0698336 100644
--- a/src/ms/header.rs
+++ b/src/ms/header.rs
@@ -23,6 +23,8 @@ pub enum Error {
     UnsupportedSnowVersion(u8),
     #[error("Unsupported chacha20 version, expected 4 but got {0}")]
     UnsupportedChacha20Version(u8),
+    #[error("Invalid salt length {0}")]
+    InvalidSaltLength(usize),
     #[error("Hash mismatch, expected {0} but got {1}")]
     HashMismatch(i32, i32),
 }
@@ -58,7 +60,7 @@ impl MsHeader {
         // all the code is from https://github.com/Kagamia/WzComparerR2/pull/271/files#diff-d0d53b2411f7d680fb0c7c32bbf10138be0f7e662555cbc28d27353fbd2741d0
         // 1. random bytes
         let rand_byte_count = sum_str(&file_name) % 312 + 30;
-        let rand_bytes = reader.get_slice(offset..rand_byte_count);
+        let rand_bytes = reader.get_slice_or_error(offset..rand_byte_count)?;
         offset += rand_byte_count;
 
         // 2. encrypted snowKeySalt
@@ -66,12 +68,15 @@ impl MsHeader {
         let hashed_salt_len_i32 = reader.read_i32_at(offset)?;
         // plus 1 and skip 3 bytes
         offset += 4;
-        let salt_len = hashed_salt_len ^ rand_bytes[0];
-        let salt_byte_len = (salt_len * 2) as usize;
-        let salt_bytes = reader.get_slice(offset..offset + salt_byte_len);
+        let salt_len = (hashed_salt_len ^ rand_bytes[0]) as usize;
+        if salt_len > rand_bytes.len() {
+            return Err(Error::InvalidSaltLength(salt_len));
+        }
+        let salt_byte_len = salt_len * 2;
+        let salt_bytes = reader.get_slice_or_error(offset..offset + salt_byte_len)?;
         offset += salt_byte_len;
 
-        let salt_string = (0..salt_len as usize)
+        let salt_string = (0..salt_len)
             .map(|i| {
                 let byte = rand_bytes[i];
                 let byte2 = salt_bytes[i * 2];
@@ -84,13 +89,13 @@ impl MsHeader {
 
         let file_name_with_salt_bytes = file_name_with_salt.as_bytes();
         let snow_key: [u8; MS_SNOW2_KEY_SIZE] = core::array::from_fn(|i| {
-            file_name_with_salt_bytes[i % file_name_with_salt.len()] + i as u8
+            file_name_with_salt_bytes[i % file_name_with_salt.len()].wrapping_add(i as u8)
         });
         let mut snow_decryptor = Snow2Decryptor::new(snow_key);
 
         let hstart = offset;
         // the snow decryptor is decrypting 4 bytes at a time, so we need to decrypt 12 bytes for only 9 bytes of data
-        let header_bytes = reader.get_slice(offset..offset + 12);
+        let header_bytes = reader.get_slice_or_error(offset..offset + 12)?;
 
         let mut decrypt_data = [0_u8; 12];
         decrypt_data.copy_from_slice(header_bytes);
@@ -111,7 +116,10 @@ impl MsHeader {
             .map(|s| u16::from_le_bytes([s[0], s[1]]))
             .fold(0, |acc: i32, x| acc.wrapping_add(x as i32));
 
-        let actual_hash = hashed_salt_len_i32 + version as i32 + entry_count + sum_of_salt_byte;
+        let actual_hash = hashed_salt_len_i32
+            .wrapping_add(version as i32)
+            .wrapping_add(entry_count)
+            .wrapping_add(sum_of_salt_byte);
         if hash != actual_hash {
             return Err(Error::HashMismatch(hash, actual_hash));
         }
-- 
2.43.0


From ecd8d6ee899566f2f6f2bf012c327d9de5e43cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:19 +0000
Subject: [PATCH 29/47] fix: opening a damaged or empty version 2 .ms file
 panics

---
 src/ms/chacha20_reader.rs | 31 ++++++++++++++++++-------------
 src/ms/header.rs          | 17 ++++++++++-------
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/ms/chacha20_reader.rs b/src/ms/chacha20_reader.rs
index 1cc4141..6b7d077 100644
--- a/src/ms/chacha20_reader.rs
+++ b/src/ms/chacha20_reader.rs
@@ -39,15 +39,13 @@ impl<'a> ChaCha20Reader<'a> {
     }
     pub fn read_u32(&mut self) -> Result<u32, Error> {
         let mut buffer = [0_u8; 4];
-        buffer.copy_from_slice(&self.data[self.offset..self.offset + 4]);
-        self.apply_keystream(&mut buffer);
+        self.apply_keystream(&mut buffer)?;
 
         buffer.pread_with::<u32>(0, LE).map_err(Error::from)
     }
     pub fn read_i32(&mut self) -> Result<i32, Error> {
         let mut buffer = [0_u8; 4];
-        buffer.copy_from_slice(&self.data[self.offset..self.offset + 4]);
-        self.apply_keystream(&mut buffer);
+        self.apply_keystream(&mut buffer)?;
 
         buffer.pread_with::<i32>(0, LE).map_err(Error::from)
     }
@@ -61,8 +59,11 @@ impl<'a> ChaCha20Reader<'a> {
         String::from_utf16(&utf16_vec).map_err(Error::from)
     }
     pub fn read_bytes(&mut self, len: usize) -> Result<Vec<u8>, Error> {
-        let mut buffer = self.data[self.offset..self.offset + len].to_vec();
-        self.apply_keystream(&mut buffer);
+        if len > self.data.len() {
+            return Err(Error::OutOfBounds(len, self.data.len()));
+        }
+        let mut buffer = vec![0_u8; len];
+        self.apply_keystream(&mut buffer)?;
         Ok(buffer)
     }
     pub fn write_bytes_to(&mut self, dest_buffer: &mut [u8], len: usize) -> Result<(), Error> {
@@ -70,18 +71,20 @@ impl<'a> ChaCha20Reader<'a> {
             return Err(Error::DecryptError(len));
         }
 
-        dest_buffer.copy_from_slice(&self.data[self.offset..self.offset + len]);
-        self.apply_keystream(dest_buffer);
-
-        Ok(())
+        self.apply_keystream(&mut dest_buffer[..len])
     }
-    pub fn apply_keystream(&mut self, data: &mut [u8]) {
+    /// Fill `data` with the next decrypted bytes.
+    pub fn apply_keystream(&mut self, data: &mut [u8]) -> Result<(), Error> {
         let mut remain = data.len();
         let mut start = 0;
         while remain > 0 {
             if self.buffer_offset >= READER_CHUNK_SIZE {
-                self.buffer
-                    .copy_from_slice(&self.data[self.offset..self.offset + READER_CHUNK_SIZE]);
+                let end = self.offset + READER_CHUNK_SIZE;
+                let chunk = self
+                    .data
+                    .get(self.offset..end)
+                    .ok_or(Error::OutOfBounds(end, self.data.len()))?;
+                self.buffer.copy_from_slice(chunk);
                 self.decryptor.apply_keystream(&mut self.buffer);
                 self.offset += READER_CHUNK_SIZE;
                 self.buffer_offset = 0;
@@ -100,5 +103,7 @@ impl<'a> ChaCha20Reader<'a> {
         if self.buffer_offset >= READER_CHUNK_SIZE {
             self.decryptor.state.state.set_stream_param(0, 0);
         }
+
+        Ok(())
     }
 }
diff --git a/src/ms/header.rs b/src/ms/header.rs
index 0698336..c8f8415 100644
--- a/src/ms/header.rs
+++ b/src/ms/header.rs
@@ -151,7 +151,7 @@ impl MsHeader {
         // 1. random bytes
         let rand_byte_count = sum_str(&file_name) % 312 + 30;
         let rand_bytes: Vec<u8> = reader
-            .get_slice(offset..rand_byte_count)
+            .get_slice_or_error(offset..rand_byte_count)?
             .iter()
             .map(|b| ((*b as i8) >> 1) as u8)
             .collect();
@@ -170,14 +170,17 @@ impl MsHeader {
         let _hashed_salt_len_i32 = reader.read_i32_at(offset)?;
         offset += 4;
         let salt_len = (hashed_salt_len ^ rand_bytes[0]) as usize;
-        let salt_byte_len = (salt_len * 2) as usize;
-        let salt_bytes = reader.get_slice(offset..offset + salt_byte_len).to_vec();
+        if salt_len > rand_bytes.len() {
+            return Err(Error::InvalidSaltLength(salt_len));
+        }
+        let salt_byte_len = salt_len * 2;
+        let salt_bytes = reader.get_slice_or_error(offset..offset + salt_byte_len)?;
         offset += salt_byte_len;
 
-        let salt_string = (0..salt_len as usize)
+        let salt_string = (0..salt_len)
             .map(|i| {
                 let a = rand_bytes[i] ^ salt_bytes[i * 2];
-                let b = ((a | 0x4B) << 1) - a - 75;
+                let b = ((a | 0x4B) << 1).wrapping_sub(a).wrapping_sub(75);
                 b as char
             })
             .collect::<String>();
@@ -189,13 +192,13 @@ impl MsHeader {
         let file_name_with_salt = format!("{}{}", file_name, &salt_string);
         let file_name_with_salt_bytes = file_name_with_salt.as_bytes();
         let chacha20_key: [u8; MS_CHACHA20_KEY_SIZE] = core::array::from_fn(|i| {
-            (file_name_with_salt_bytes[i % file_name_with_salt.len()] + i as u8)
+            (file_name_with_salt_bytes[i % file_name_with_salt.len()].wrapping_add(i as u8))
                 ^ MS_CHACHA20_KEY_BASE[i]
         });
         let empty_nonce = [0; MS_CHACHA20_NONCE_SIZE];
 
         let mut chacha20_reader = ChaCha20Reader::new(
-            reader.get_slice(offset..offset + 128),
+            reader.get_slice_or_error(offset..offset + 64)?,
             &chacha20_key,
             &empty_nonce,
         );
-- 
2.43.0


From 6f6b07c4e8756c59e4f589f8f24d6f2dc81f9481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:00 +0000
Subject: [PATCH 30/47] fix: reading the entries of an .ms file overflows in
 the key derivation

---
 src/ms/file.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ms/file.rs b/src/ms/file.rs
index 2abc5da..b850c32 100644
--- a/src/ms/file.rs
+++ b/src/ms/file.rs
@@ -85,7 +85,7 @@ impl MsFile {
         for i in 0_u8..16_u8 {
             let byte = file_name_with_salt_bytes
                 [file_name_with_salt_len - 1 - i as usize % file_name_with_salt_len];
-            snow_key[i as usize] = i + (i % 3 + 2).wrapping_mul(byte);
+            snow_key[i as usize] = i.wrapping_add((i % 3 + 2).wrapping_mul(byte));
         }
 
         let data = self.reader.get_slice(0..self.block_size);
@@ -161,7 +161,8 @@ impl MsFile {
         let chacha20_key2: [u8; MS_CHACHA20_KEY_SIZE] = core::array::from_fn(|i| {
             let byte = file_name_with_salt_bytes
                 [file_name_with_salt_len - 1 - i % file_name_with_salt_len];
-            MS_CHACHA20_KEY_BASE[i] ^ ((i as u8) + (((i as u8) % 3 + 2).wrapping_mul(byte)))
+            MS_CHACHA20_KEY_BASE[i]
+                ^ (i as u8).wrapping_add(((i as u8) % 3 + 2).wrapping_mul(byte))
         });
         let empty_nonce = [0; MS_CHACHA20_NONCE_SIZE];
 
-- 
2.43.0


From 0a3a7fc12628ce0ccec4caa6deee72baed7d5448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:07 +0000
Subject: [PATCH 31/47] fix: entries of a damaged .ms file panic or ask for
 huge buffers

---
 src/ms/file.rs         | 26 +++++++++++++----
 src/ms/ms_image.rs     | 65 +++++++++++++++++++-----------------------
 src/ms/snow2_reader.rs |  3 ++
 3 files changed, 53 insertions(+), 41 deletions(-)

diff --git a/src/ms/file.rs b/src/ms/file.rs
index b850c32..27f8a44 100644
--- a/src/ms/file.rs
+++ b/src/ms/file.rs
@@ -42,6 +42,14 @@ pub struct MsFile {
     pub header: MsHeader,
 }
 
+/// The size of an UTF-16 entry name, `len` is read from the file.
+fn utf16_byte_len(len: i32) -> Result<usize, Error> {
+    usize::try_from(len)
+        .ok()
+        .and_then(|len| len.checked_mul(2))
+        .ok_or(Error::InvalidMsFile)
+}
+
 impl MsFile {
     pub fn from_file<P>(path: P) -> Result<MsFile, Error>
     where
@@ -93,11 +101,11 @@ impl MsFile {
 
         snow_reader.offset = self.header.estart;
 
-        let mut ms_images = Vec::with_capacity(self.header.entry_count as usize);
+        let mut ms_images = Vec::new();
 
         for _ in 0..self.header.entry_count {
             let entry_name_len = snow_reader.read_i32()?;
-            let entry_name = snow_reader.read_utf16_string(entry_name_len as usize * 2)?;
+            let entry_name = snow_reader.read_utf16_string(utf16_byte_len(entry_name_len)?)?;
             let check_sum = snow_reader.read_i32()?;
             let flags = snow_reader.read_i32()?;
             let start_pos = snow_reader.read_i32()?;
@@ -135,7 +143,10 @@ impl MsFile {
         }
 
         for image in ms_images.iter_mut() {
-            let actual_start = data_start + image.offset * 1024;
+            let actual_start = usize::try_from(image.meta.start_pos)
+                .ok()
+                .and_then(|start| start.checked_mul(1024)?.checked_add(data_start))
+                .ok_or(Error::InvalidMsFile)?;
             image.offset = actual_start;
             image.meta.start_pos = actual_start as i32;
         }
@@ -173,11 +184,11 @@ impl MsFile {
         );
         chacha20_reader.offset = self.header.estart;
 
-        let mut ms_images = Vec::<MsImage>::with_capacity(self.header.entry_count as usize);
+        let mut ms_images = Vec::<MsImage>::new();
 
         for _ in 0..self.header.entry_count {
             let entry_name_len = chacha20_reader.read_i32()?;
-            let entry_name = chacha20_reader.read_utf16_string(entry_name_len as usize * 2)?;
+            let entry_name = chacha20_reader.read_utf16_string(utf16_byte_len(entry_name_len)?)?;
             let check_sum = chacha20_reader.read_i32()?;
             let flags = chacha20_reader.read_i32()?;
             let start_pos = chacha20_reader.read_i32()?;
@@ -218,7 +229,10 @@ impl MsFile {
         }
 
         for image in ms_images.iter_mut() {
-            let actual_start = data_start + image.offset * 1024;
+            let actual_start = usize::try_from(image.meta.start_pos)
+                .ok()
+                .and_then(|start| start.checked_mul(1024)?.checked_add(data_start))
+                .ok_or(Error::InvalidMsFile)?;
             image.offset = actual_start;
             image.meta.start_pos = actual_start as i32;
         }
diff --git a/src/ms/ms_image.rs b/src/ms/ms_image.rs
index 017e0da..34a00f5 100644
--- a/src/ms/ms_image.rs
+++ b/src/ms/ms_image.rs
@@ -59,6 +59,29 @@ impl MsImage {
         }
     }
 
+    /// The stored data, as much of it as the file has.
+    fn encrypted_data(&self) -> &[u8] {
+        let data = self.reader.map.as_ref();
+        let start = self.offset.min(data.len());
+        let end = self.offset.saturating_add(self.block_size).min(data.len());
+        &data[start..end]
+    }
+
+    /// Only take the size of the image, not size_aligned.
+    fn wz_image_of(&self, decrypted: &[u8]) -> WzImage {
+        let size = usize::try_from(self.meta.size)
+            .unwrap_or(0)
+            .min(decrypted.len());
+
+        WzImage {
+            reader: Arc::new(WzReader::from_buff(&decrypted[..size])),
+            name: self.meta.entry_name.clone().into(),
+            offset: 0,
+            block_size: size,
+            is_parsed: false,
+        }
+    }
+
     fn to_wz_image_v1(&self) -> WzImage {
         // calc snow key for entry
         let mut key_hash = 0x811C9DC5;
@@ -74,7 +97,7 @@ impl MsImage {
         let bytes = self.meta.entry_name.as_bytes();
 
         for i in 0..16 {
-            let char = bytes[i % bytes.len()];
+            let char = bytes.get(i % bytes.len().max(1)).copied().unwrap_or(0);
             let digit = key_hash_digits[i % key_hash_digits.len()] % 2;
             let digit2 = (key_hash_digits[(i + 1) % key_hash_digits.len()] + i as u8) % 5;
             let ekey_idx = key_hash_digits[(i + 2) % key_hash_digits.len()] + i as u8;
@@ -86,10 +109,7 @@ impl MsImage {
                 .wrapping_add(char.wrapping_mul(digit.wrapping_add(ekey).wrapping_add(digit2)));
         }
 
-        let mut image_buffer = self
-            .reader
-            .get_slice(self.offset..self.offset + self.block_size)
-            .to_owned();
+        let mut image_buffer = self.encrypted_data().to_owned();
 
         // decrypt initial 1024 bytes twice
         {
@@ -102,16 +122,7 @@ impl MsImage {
 
         snow_decryptor.decrypt_slice(&mut image_buffer[..]);
 
-        // create a new allocate reader,but only grab the size of the image, not size_aligned
-        let image_reader = WzReader::from_buff(&image_buffer[..self.meta.size as usize]);
-
-        WzImage {
-            reader: Arc::new(image_reader),
-            name: self.meta.entry_name.clone().into(),
-            offset: 0,
-            block_size: self.meta.size as usize,
-            is_parsed: false,
-        }
+        self.wz_image_of(&image_buffer)
     }
 
     fn to_wz_image_v2(&self) -> WzImage {
@@ -129,13 +140,9 @@ impl MsImage {
 
         // key
         let mut img_key = [0_u8; MS_CHACHA20_KEY_SIZE];
+        let chars: Vec<char> = self.meta.entry_name.chars().collect();
         for i in 0..MS_CHACHA20_KEY_SIZE {
-            let char = self
-                .meta
-                .entry_name
-                .chars()
-                .nth(i % self.meta.entry_name.len())
-                .unwrap() as u8;
+            let char = chars.get(i % chars.len().max(1)).map_or(0, |c| *c as u8);
             let digit = key_hash_digits[i % key_hash_digits.len()] % 2;
 
             let ekey_idx = ((key_hash_digits[(i + 2) % key_hash_digits.len()] + i as u8)
@@ -168,10 +175,7 @@ impl MsImage {
         nonce[4..].copy_from_slice(&key_hash_data[0..8]);
         let counter = u32::from_le_bytes(key_hash_data[8..12].try_into().unwrap());
 
-        let mut image_buffer = self
-            .reader
-            .get_slice(self.offset..self.offset + self.block_size)
-            .to_owned();
+        let mut image_buffer = self.encrypted_data().to_owned();
 
         // only decrypt initial 1024 bytes
         {
@@ -184,15 +188,6 @@ impl MsImage {
             chacha20_cipher.apply_keystream(&mut image_buffer[..min_len]);
         }
 
-        // create a new allocate reader,but only grab the size of the image, not size_aligned
-        let image_reader = WzReader::from_buff(&image_buffer[..self.meta.size as usize]);
-
-        WzImage {
-            reader: Arc::new(image_reader),
-            name: self.meta.entry_name.clone().into(),
-            offset: 0,
-            block_size: self.meta.size as usize,
-            is_parsed: false,
-        }
+        self.wz_image_of(&image_buffer)
     }
 }
diff --git a/src/ms/snow2_reader.rs b/src/ms/snow2_reader.rs
index dc67c5f..d23f622 100644
--- a/src/ms/snow2_reader.rs
+++ b/src/ms/snow2_reader.rs
@@ -76,6 +76,9 @@ impl<'a> Snow2Reader<'a> {
         String::from_utf16(&utf16_vec).map_err(Error::from)
     }
     pub fn read_bytes(&mut self, len: usize) -> Result<Vec<u8>, Error> {
+        if len > self.data.len() {
+            return Err(Error::OutOfBounds(len, self.data.len()));
+        }
         let mut vec = vec![0_u8; len];
 
         self.write_bytes_to(&mut vec, len)?;
-- 
2.43.0


From 2b00d5c73b384324f0e80584865efd42359e937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:54 +0000
Subject: [PATCH 32/47] fix: a listed folder without its .wz makes resolving a
 base panic

---
 src/util/resolver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 9fb57ac..78973fc 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -10,7 +10,7 @@ pub fn get_root_wz_file_path(dir: &DirEntry) -> Option<String> {
     inner_wz_name.push_str(".wz");
     let inner_wz_path = dir.path().join(inner_wz_name);
 
-    if inner_wz_path.try_exists().is_ok() {
+    if inner_wz_path.is_file() {
         return Some(inner_wz_path.to_str().unwrap().to_string());
     }
 
-- 
2.43.0


From 02e2932ce001735e999542838e496b04da731774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:35 +0000
Subject: [PATCH 33/47] fix: resolving merges unrelated files and drops content
 of numbered part archives

---
 src/util/resolver.rs | 106 ++++++++++++++++++++++---------------------
 1 file changed, 55 insertions(+), 51 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 78973fc..f774fbe 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -17,6 +17,23 @@ pub fn get_root_wz_file_path(dir: &DirEntry) -> Option<String> {
     None
 }
 
+/// Check is XXX_nnn.wz of XXX.wz.
+fn is_part_of(root: &Path, file: &Path) -> bool {
+    if file.extension() != Some("wz".as_ref()) {
+        return false;
+    }
+
+    let stems = (root.file_stem(), file.file_stem().and_then(|stem| stem.to_str()));
+
+    if let (Some(root_stem), Some((name, number))) =
+        (stems.0, stems.1.and_then(|stem| stem.rsplit_once('_')))
+    {
+        return root_stem == name && number.parse::<u16>().is_ok();
+    }
+
+    false
+}
+
 /// Resolve series of wz files in a directory, and merge *_nnn.wz files into one WzFile.
 pub fn resolve_root_wz_file_dir_full(
     dir: impl AsRef<Path>,
@@ -31,68 +48,55 @@ pub fn resolve_root_wz_file_dir_full(
             .into();
     let wz_dir = dir.as_ref().parent().unwrap();
 
-    {
-        let mut root_node_write = root_node.write().unwrap();
+    root_node.write().unwrap().parse(&root_node).unwrap();
 
-        root_node_write.parse(&root_node).unwrap();
+    let entries = wz_dir.read_dir()?.collect::<Result<Vec<_>, _>>()?;
 
-        for entry in wz_dir.read_dir()? {
-            let entry = entry?;
-            let file_type = entry.file_type()?;
-            let name = entry.file_name();
+    // parts go first, a directory may only be listed in one of them
+    for entry in &entries {
+        let file_path = entry.path();
 
-            if file_type.is_dir() && root_node_write.at(name.to_str().unwrap()).is_some() {
-                if let Some(file_path) = get_root_wz_file_path(&entry) {
-                    let dir_node = resolve_root_wz_file_dir_full(
-                        &file_path,
-                        version,
-                        patch_version,
-                        Some(&root_node),
-                        default_keys,
-                    )?;
+        if !entry.file_type()?.is_file() || !is_part_of(dir.as_ref(), &file_path) {
+            continue;
+        }
 
-                    /* replace the original one */
-                    root_node_write
-                        .children
-                        .insert(name.to_str().unwrap().into(), dir_node);
-                }
-            } else if file_type.is_file() {
-                //  check is XXX_nnn.wz
-                let file_path = entry.path();
-                let file_name = file_path.file_stem().unwrap().to_str().unwrap();
+        let node = WzNode::from_wz_file_full(
+            file_path.to_str().unwrap(),
+            version,
+            patch_version,
+            None,
+            default_keys,
+        )
+        .unwrap()
+        .into_lock();
 
-                let splited = file_name.split('_').collect::<Vec<&str>>();
+        let mut node_write = node.write().unwrap();
 
-                if splited.len() < 2 {
-                    continue;
-                }
+        if node_write.parse(&root_node).is_ok() {
+            node_write.transfer_childs(&root_node);
+        }
+    }
 
-                if splited.last().unwrap().parse::<u16>().is_err() {
-                    continue;
-                }
+    for entry in &entries {
+        let name = entry.file_name();
+        let name = name.to_str().unwrap();
 
-                let node = WzNode::from_wz_file_full(
-                    file_path.to_str().unwrap(),
+        if entry.file_type()?.is_dir() && root_node.read().unwrap().at(name).is_some() {
+            if let Some(file_path) = get_root_wz_file_path(entry) {
+                let dir_node = resolve_root_wz_file_dir_full(
+                    &file_path,
                     version,
                     patch_version,
-                    None,
+                    Some(&root_node),
                     default_keys,
-                )
-                .unwrap()
-                .into_lock();
-
-                let mut node_write = node.write().unwrap();
-
-                if node_write.parse(&root_node).is_ok() {
-                    root_node_write.children.reserve(node_write.children.len());
-                    #[cfg(not(feature = "indexmap"))]
-                    let iter = node_write.children.drain();
-                    #[cfg(feature = "indexmap")]
-                    let iter = node_write.children.drain(..);
-                    for (name, child) in iter {
-                        root_node_write.children.insert(name, child);
-                    }
-                }
+                )?;
+
+                /* replace the original one */
+                root_node
+                    .write()
+                    .unwrap()
+                    .children
+                    .insert(name.into(), dir_node);
             }
         }
     }
-- 
2.43.0


From 8c86249746651cd8c40fe6d61bf3a60dd5c3341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:40 +0000
Subject: [PATCH 34/47] fix: resolving a Base.wz by a path relative to the
 current directory panics

---
 src/util/resolver.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index f774fbe..0cc2d05 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -17,6 +17,14 @@ pub fn get_root_wz_file_path(dir: &DirEntry) -> Option<String> {
     None
 }
 
+/// Get the directory of a path, it is the current directory when path is a plain file name.
+fn parent_dir(path: &Path) -> &Path {
+    match path.parent() {
+        Some(parent) if !parent.as_os_str().is_empty() => parent,
+        _ => Path::new("."),
+    }
+}
+
 /// Check is XXX_nnn.wz of XXX.wz.
 fn is_part_of(root: &Path, file: &Path) -> bool {
     if file.extension() != Some("wz".as_ref()) {
@@ -46,7 +54,7 @@ pub fn resolve_root_wz_file_dir_full(
         WzNode::from_wz_file_full(&dir, version, patch_version, parent, default_keys)
             .unwrap()
             .into();
-    let wz_dir = dir.as_ref().parent().unwrap();
+    let wz_dir = parent_dir(dir.as_ref());
 
     root_node.write().unwrap().parse(&root_node).unwrap();
 
@@ -134,14 +142,18 @@ pub fn resolve_base(
     {
         let mut base_write = base_node.write().unwrap();
 
-        let first_parent = path.as_ref().parent().unwrap();
+        let first_parent = match parent_dir(path.as_ref()) {
+            dir if dir.file_name().is_some() => dir.to_path_buf(),
+            // `.` or `..`, the real name is needed
+            dir => dir.canonicalize()?,
+        };
 
         // if a Base.wz in under Base folder, then should up to parent to find Map, Item and other stuff
         // if not, the other stuff just at same folder as Base.wz
-        let wz_root_path = if first_parent.file_stem().unwrap() == "Base" {
-            first_parent.parent().unwrap()
+        let wz_root_path = if first_parent.file_name() == Some("Base".as_ref()) {
+            parent_dir(&first_parent)
         } else {
-            first_parent
+            &first_parent
         };
 
         for item in wz_root_path.read_dir()? {
-- 
2.43.0


From 6e4b9ac3b28356553e622453b589a1b7b6b93172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:16 +0000
Subject: [PATCH 35/47] fix: an unreadable archive or an odd file name makes
 resolving panic

---
 src/util/resolver.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 0cc2d05..3c0a267 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -52,11 +52,15 @@ pub fn resolve_root_wz_file_dir_full(
 ) -> Result<WzNodeArc, io::Error> {
     let root_node: WzNodeArc =
         WzNode::from_wz_file_full(&dir, version, patch_version, parent, default_keys)
-            .unwrap()
+            .map_err(io::Error::other)?
             .into();
     let wz_dir = parent_dir(dir.as_ref());
 
-    root_node.write().unwrap().parse(&root_node).unwrap();
+    root_node
+        .write()
+        .unwrap()
+        .parse(&root_node)
+        .map_err(io::Error::other)?;
 
     let entries = wz_dir.read_dir()?.collect::<Result<Vec<_>, _>>()?;
 
@@ -69,13 +73,13 @@ pub fn resolve_root_wz_file_dir_full(
         }
 
         let node = WzNode::from_wz_file_full(
-            file_path.to_str().unwrap(),
+            &file_path,
             version,
             patch_version,
             None,
             default_keys,
         )
-        .unwrap()
+        .map_err(io::Error::other)?
         .into_lock();
 
         let mut node_write = node.write().unwrap();
@@ -87,7 +91,10 @@ pub fn resolve_root_wz_file_dir_full(
 
     for entry in &entries {
         let name = entry.file_name();
-        let name = name.to_str().unwrap();
+        // every name in a wz file is a valid str
+        let Some(name) = name.to_str() else {
+            continue;
+        };
 
         if entry.file_type()?.is_dir() && root_node.read().unwrap().at(name).is_some() {
             if let Some(file_path) = get_root_wz_file_path(entry) {
@@ -159,12 +166,15 @@ pub fn resolve_base(
         for item in wz_root_path.read_dir()? {
             let dir = item?;
             let path = dir.path();
-            let file_name = path.file_stem().unwrap();
+            // every name in a wz file is a valid str
+            let Some(file_name) = path.file_stem().and_then(|name| name.to_str()) else {
+                continue;
+            };
 
             let is_valid = path.extension().unwrap_or_default() == "wz" || path.is_dir();
 
             // we only allow the thing is listed in Base.wz
-            let has_dir = base_write.at(file_name.to_str().unwrap()).is_some();
+            let has_dir = base_write.at(file_name).is_some();
 
             if has_dir && is_valid {
                 let wz_path = if dir.file_type()?.is_dir() {
@@ -186,7 +196,7 @@ pub fn resolve_base(
                     /* replace the original one */
                     base_write
                         .children
-                        .insert(file_name.to_str().unwrap().into(), dir_node);
+                        .insert(file_name.into(), dir_node);
                 }
             }
         }
-- 
2.43.0


From e427da2b83a87125eecb8965edec1f4f028661bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:21 +0000
Subject: [PATCH 36/47] fix: resolving mistakes linked folders for files and
 takes Map.bak for Map

---
 src/util/resolver.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 3c0a267..1c111a0 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -68,7 +68,7 @@ pub fn resolve_root_wz_file_dir_full(
     for entry in &entries {
         let file_path = entry.path();
 
-        if !entry.file_type()?.is_file() || !is_part_of(dir.as_ref(), &file_path) {
+        if !file_path.is_file() || !is_part_of(dir.as_ref(), &file_path) {
             continue;
         }
 
@@ -96,7 +96,7 @@ pub fn resolve_root_wz_file_dir_full(
             continue;
         };
 
-        if entry.file_type()?.is_dir() && root_node.read().unwrap().at(name).is_some() {
+        if entry.path().is_dir() && root_node.read().unwrap().at(name).is_some() {
             if let Some(file_path) = get_root_wz_file_path(entry) {
                 let dir_node = resolve_root_wz_file_dir_full(
                     &file_path,
@@ -167,17 +167,23 @@ pub fn resolve_base(
             let dir = item?;
             let path = dir.path();
             // every name in a wz file is a valid str
-            let Some(file_name) = path.file_stem().and_then(|name| name.to_str()) else {
+            let is_dir = path.is_dir();
+            let file_name = if is_dir {
+                path.file_name()
+            } else {
+                path.file_stem()
+            };
+            let Some(file_name) = file_name.and_then(|name| name.to_str()) else {
                 continue;
             };
 
-            let is_valid = path.extension().unwrap_or_default() == "wz" || path.is_dir();
+            let is_valid = path.extension().unwrap_or_default() == "wz" || is_dir;
 
             // we only allow the thing is listed in Base.wz
             let has_dir = base_write.at(file_name).is_some();
 
             if has_dir && is_valid {
-                let wz_path = if dir.file_type()?.is_dir() {
+                let wz_path = if is_dir {
                     get_root_wz_file_path(&dir)
                 } else {
                     Some(path.to_str().unwrap().to_string())
-- 
2.43.0


From a0395e12a2eb11e8484bbee46124f7c9ad93402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:47 +0000
Subject: [PATCH 37/47] fix: sizes stored in a damaged image panic or ask for
 huge buffers

---
 src/property/lua.rs        | 15 +++++++++------
 src/property/raw_data.rs   |  5 +++--
 src/property/sound.rs      | 25 +++++++++++++++++--------
 src/property/video.rs      |  5 +++--
 src/util/parse_property.rs | 20 +++++++++-----------
 src/wz_image.rs            |  9 ++++++---
 6 files changed, 47 insertions(+), 32 deletions(-)

diff --git a/src/property/lua.rs b/src/property/lua.rs
index a5a691f..1c7e595 100644
--- a/src/property/lua.rs
+++ b/src/property/lua.rs
@@ -1,6 +1,6 @@
 use crate::util::maple_crypto_constants::{WZ_GMSIV, WZ_MSEAIV};
 use crate::GLOBAL_STRING_DECRYPTOR;
-use crate::{SharedWzStringDecryptor, WzReader};
+use crate::{reader, SharedWzStringDecryptor, WzReader};
 use std::sync::Arc;
 use thiserror::Error;
 
@@ -14,6 +14,9 @@ pub enum WzLuaParseError {
 
     #[error("Not a Lua property")]
     NotLuaProperty,
+
+    #[error("Binary reading error")]
+    ReaderError(#[from] reader::Error),
 }
 
 /// WzLua use to store lua information and extraction method.
@@ -37,10 +40,10 @@ impl WzLua {
     pub fn extract_lua(&self) -> Result<String, WzLuaParseError> {
         let data = self
             .reader
-            .get_slice(self.offset..self.length + self.offset);
+            .get_slice_or_error(self.offset..self.offset.saturating_add(self.length))?;
 
         let keys = self
-            .get_mtb_keys_from_guess_lua_iv()
+            .get_mtb_keys_from_guess_lua_iv(data)
             .ok_or(WzLuaParseError::UnknownLuaIv)?;
 
         let len = data.len();
@@ -57,9 +60,9 @@ impl WzLua {
     }
 
     /// try to guess the iv from encrypted data
-    fn get_mtb_keys_from_guess_lua_iv(&self) -> Option<SharedWzStringDecryptor> {
-        let len = std::cmp::min(64, self.length);
-        let test_data = self.reader.get_slice(self.offset..self.offset + len);
+    fn get_mtb_keys_from_guess_lua_iv(&self, data: &[u8]) -> Option<SharedWzStringDecryptor> {
+        let len = std::cmp::min(64, data.len());
+        let test_data = &data[..len];
 
         let ivs = [WZ_MSEAIV, WZ_GMSIV, [0, 0, 0, 0]];
 
diff --git a/src/property/raw_data.rs b/src/property/raw_data.rs
index ce3edb1..c679c28 100644
--- a/src/property/raw_data.rs
+++ b/src/property/raw_data.rs
@@ -19,11 +19,12 @@ impl WzRawData {
     }
     #[inline]
     fn get_buffer_range(&self) -> Range<usize> {
-        self.offset..self.offset + self.length
+        self.offset..self.offset.saturating_add(self.length)
     }
+    /// Get the data, it's empty when the file doesn't hold all of it.
     #[inline]
     pub fn get_buffer(&self) -> &[u8] {
         let range = self.get_buffer_range();
-        self.reader.get_slice(range)
+        self.reader.get_slice_or_error(range).unwrap_or_default()
     }
 }
diff --git a/src/property/sound.rs b/src/property/sound.rs
index a488e18..69bcedc 100644
--- a/src/property/sound.rs
+++ b/src/property/sound.rs
@@ -1,4 +1,4 @@
-use crate::reader::{read_i32_at, WzReader};
+use crate::reader::{self, read_i32_at, WzReader};
 use std::fs::File;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -22,6 +22,9 @@ pub enum WzSoundError {
 
     #[error("Not a Sound property")]
     NotSoundProperty,
+
+    #[error("Binary reading error")]
+    ReaderError(#[from] reader::Error),
 }
 
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -104,16 +107,19 @@ impl WzSound {
     }
     #[inline]
     fn get_buffer_range(&self) -> Range<usize> {
-        self.offset..self.offset + self.length as usize
+        self.offset..self.offset.saturating_add(self.length as usize)
     }
     #[inline]
     fn get_header_range(&self) -> Range<usize> {
-        self.header_offset..self.header_offset + self.header_size
+        self.header_offset..self.header_offset.saturating_add(self.header_size)
     }
     pub fn get_wav_header(&self) -> Vec<u8> {
-        let header = self.reader.get_slice(self.get_header_range());
-        let chunk_size = (self.length + 36).to_le_bytes();
-        let u8_16_from_header = &header[0x34..0x34 + 16];
+        let header = self
+            .reader
+            .get_slice_or_error(self.get_header_range())
+            .unwrap_or_default();
+        let chunk_size = self.length.wrapping_add(36).to_le_bytes();
+        let u8_16_from_header = header.get(0x34..0x34 + 16).unwrap_or(&[0; 16]);
         let chunk2_size = self.length.to_le_bytes();
 
         let mut wav_header = WAV_HEADER.to_vec();
@@ -129,7 +135,7 @@ impl WzSound {
     where
         W: Write + Seek,
     {
-        let buffer = self.reader.get_slice(self.get_buffer_range());
+        let buffer = self.reader.get_slice_or_error(self.get_buffer_range())?;
         match self.sound_type {
             WzSoundType::Wav => {
                 let wav_header = self.get_wav_header();
@@ -143,9 +149,12 @@ impl WzSound {
 
         Ok(())
     }
+    /// Get the whole sound, it's empty when the file doesn't hold all of it.
     #[inline]
     pub fn get_buffer(&self) -> Vec<u8> {
-        let buffer = self.reader.get_slice(self.get_buffer_range());
+        let Ok(buffer) = self.reader.get_slice_or_error(self.get_buffer_range()) else {
+            return Vec::new();
+        };
         match self.sound_type {
             WzSoundType::Wav => {
                 let mut wav_buffer = Vec::with_capacity(44 + buffer.len());
diff --git a/src/property/video.rs b/src/property/video.rs
index aac3f2c..276f2eb 100644
--- a/src/property/video.rs
+++ b/src/property/video.rs
@@ -19,11 +19,12 @@ impl WzVideo {
     }
     #[inline]
     fn get_buffer_range(&self) -> Range<usize> {
-        self.offset..self.offset + self.length
+        self.offset..self.offset.saturating_add(self.length)
     }
+    /// Get the data, it's empty when the file doesn't hold all of it.
     #[inline]
     pub fn get_buffer(&self) -> &[u8] {
         let range = self.get_buffer_range();
-        self.reader.get_slice(range)
+        self.reader.get_slice_or_error(range).unwrap_or_default()
     }
 }
diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index a15aadd..9147a52 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -34,7 +34,8 @@ pub fn parse_property_list(
 ) -> Result<(WzNodeArcVec, Vec<WzNodeArc>), WzPropertyParseError> {
     let entry_count = reader.read_wz_int()?;
 
-    let mut childs: WzNodeArcVec = Vec::with_capacity(entry_count as usize);
+    // the count is only a claim, it shouldn't decide how much to allocate
+    let mut childs: WzNodeArcVec = Vec::with_capacity(entry_count.clamp(0, 1024) as usize);
     let mut uol_nodes: Vec<WzNodeArc> = Vec::new();
 
     for _ in 0..entry_count {
@@ -245,7 +246,7 @@ pub fn parse_more(
             let _ = reader.read_wz_int()?;
             reader.skip(2);
             /* unknown end */
-            let canvas_slice_size = (reader.read_i32()? - 1) as usize;
+            let canvas_slice_size = reader.read_i32()?.wrapping_sub(1) as usize;
             reader.skip(1);
             let canvas_offset = reader.pos.get();
             let canvas_header = reader.read_u16()?;
@@ -274,7 +275,6 @@ pub fn parse_more(
 
             {
                 let mut node_write = node.write().unwrap();
-                node_write.children.reserve(entry_count as usize);
                 for i in 0..entry_count {
                     let name: WzNodeName = i.to_string().into();
                     let parsed_node = parse_extended_prop(
@@ -307,17 +307,15 @@ pub fn parse_more(
             let _sound_start_offset = reader.pos.get();
             let sound_size = reader.read_wz_int()? as u32;
             let sound_duration = reader.read_wz_int()? as u32;
-            let sound_offset = end_of_block - (sound_size as usize);
+            let sound_offset = end_of_block
+                .checked_sub(sound_size as usize)
+                .ok_or(reader::Error::OutOfBounds(sound_size as usize, end_of_block))?;
 
             let header_offset: usize = reader.pos.get();
+            let header = reader.get_slice_or_error(header_offset..sound_offset)?;
+            let header_size = header.len();
 
-            let header_size = sound_offset - header_offset;
-
-            let sound_type = get_sound_type_from_header(
-                &reader.buf[header_offset..header_offset + header_size],
-                sound_size,
-                sound_duration,
-            );
+            let sound_type = get_sound_type_from_header(header, sound_size, sound_duration);
             let sound = WzSound::new(
                 org_reader,
                 sound_offset,
diff --git a/src/wz_image.rs b/src/wz_image.rs
index b04bdcd..2b14173 100644
--- a/src/wz_image.rs
+++ b/src/wz_image.rs
@@ -190,7 +190,7 @@ impl WzImage {
             WzImageHeaderType::PackText => {
                 let property_string = String::from_iter(
                     reader
-                        .get_slice(self.offset..self.offset + 9)
+                        .get_slice_or_error(self.offset..self.offset + 9)?
                         .iter()
                         .map(|&b| b as char),
                 );
@@ -198,8 +198,11 @@ impl WzImage {
                     return Err(Error::UnknownImageHeader(header_byte, reader.pos.get()));
                 }
                 let name: WzNodeName = String::from("text.txt").into();
-                let wz_raw_data =
-                    WzRawData::new(&self.reader, self.offset + 9, self.block_size - 9);
+                let wz_raw_data = WzRawData::new(
+                    &self.reader,
+                    self.offset + 9,
+                    self.block_size.saturating_sub(9),
+                );
                 let raw_data_node = WzNode::new(&name, wz_raw_data, parent);
 
                 return Ok((vec![(name, raw_data_node.into_lock())], vec![]));
-- 
2.43.0


From ad61f78f4609d916653dae4ba2114db0b5741002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:52 +0000
Subject: [PATCH 38/47] fix: a canvas with a damaged size or data panics or
 asks for huge buffers

---
 src/property/png.rs | 63 +++++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index db5cf8b..a5c8192 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -191,7 +191,7 @@ impl WzPng {
     }
     #[inline]
     pub fn format(&self) -> WzPngFormat {
-        WzPngFormat::from(self.format1 + self.format2)
+        WzPngFormat::from(self.format1.wrapping_add(self.format2))
     }
     #[inline]
     fn has_zlib_header(&self) -> bool {
@@ -203,9 +203,14 @@ impl WzPng {
     pub fn extract_png(&self) -> Result<DynamicImage, WzPngParseError> {
         let data = self
             .reader
-            .get_slice(self.offset..(self.offset + self.block_size));
+            .get_slice_or_error(self.offset..self.offset.saturating_add(self.block_size))?;
+        let pixels_size = self.get_buff_size()?;
         /* decompress */
-        let pixels = self.get_raw_data(data)?;
+        let pixels = self.get_raw_data(data, pixels_size)?;
+
+        if pixels.len() < pixels_size {
+            return Err(reader::Error::OutOfBounds(pixels_size, pixels.len()).into());
+        }
 
         match self.format() {
             WzPngFormat::BGRA4444 => get_image_from_bgra4444(pixels, self.width, self.height),
@@ -229,29 +234,34 @@ impl WzPng {
         }
     }
     fn get_buff_size(&self) -> Result<usize, WzPngParseError> {
+        let (width, height) = (self.width as usize, self.height as usize);
+        let pixel_count = width.saturating_mul(height);
+
         match self.format() {
             WzPngFormat::BGRA4444
             | WzPngFormat::ARGB1555
             | WzPngFormat::RGB565
-            | WzPngFormat::R16 => Ok((self.width * self.height * 2) as usize),
-            WzPngFormat::BGRA8888 | WzPngFormat::RGBA1010102 => {
-                Ok((self.width * self.height * 4) as usize)
-            }
+            | WzPngFormat::R16 => Ok(pixel_count.saturating_mul(2)),
+            WzPngFormat::BGRA8888 | WzPngFormat::RGBA1010102 => Ok(pixel_count.saturating_mul(4)),
             WzPngFormat::DXT3 | WzPngFormat::DXT3SM | WzPngFormat::DXT5 | WzPngFormat::BC7 => {
-                Ok((self.width.div_ceil(4) * self.height.div_ceil(4) * 16) as usize)
+                let block_count = width.div_ceil(4).saturating_mul(height.div_ceil(4));
+                Ok(block_count.saturating_mul(16))
             }
-            WzPngFormat::A8 => Ok((self.width * self.height) as usize),
-            WzPngFormat::RGBA32Float => Ok((self.width * self.height * 16) as usize),
+            WzPngFormat::A8 => Ok(pixel_count),
+            WzPngFormat::RGBA32Float => Ok(pixel_count.saturating_mul(16)),
             WzPngFormat::RGB565_517 => {
-                /* 128 = 16 * 16 / 2 */
-                Ok((self.width * self.height / 128) as usize)
+                /* the data says nothing about sizes below 16 */
+                let (longest, max) = (width.max(height), u16::MAX as usize);
+                if longest > max {
+                    return Err(reader::Error::OutOfBounds(longest, max).into());
+                }
+                /* 2 bytes for each 16 * 16 pixels */
+                Ok((width / 16).saturating_mul(height / 16).saturating_mul(2))
             }
             _ => Err(WzPngParseError::UnknownFormat(self.format())),
         }
     }
-    fn get_raw_data(&self, data: &[u8]) -> Result<Vec<u8>, WzPngParseError> {
-        let capacity = self.get_buff_size()?;
-
+    fn get_raw_data(&self, data: &[u8], capacity: usize) -> Result<Vec<u8>, WzPngParseError> {
         let inflate_result = if self.has_zlib_header() {
             inflate(true, data, capacity)
         } else {
@@ -265,7 +275,7 @@ impl WzPng {
         // fallback to decryption and inflate
         let mut keys = self.reader.keys.write().unwrap();
 
-        let total_end = self.offset + self.block_size;
+        let total_end = self.offset.saturating_add(self.block_size);
 
         let mut offset = self.offset;
         let mut end = 0;
@@ -273,15 +283,18 @@ impl WzPng {
         let mut decrypted = Vec::with_capacity(self.block_size);
 
         while offset < total_end {
-            let block_size = self.reader.read_i32_at(offset).unwrap() as usize;
+            let block_size = self.reader.read_i32_at(offset)? as usize;
             offset += 4;
 
-            let data = self.reader.get_slice(offset..(offset + block_size));
+            let data = self
+                .reader
+                .get_slice_or_error(offset..offset.saturating_add(block_size))?;
             offset += block_size;
 
             decrypted.extend_from_slice(data);
 
-            keys.ensure_key_size(data.len()).unwrap();
+            keys.ensure_key_size(data.len())
+                .map_err(|_| reader::Error::DecryptError(data.len()))?;
 
             keys.decrypt_slice(&mut decrypted[end..(end + block_size)]);
 
@@ -289,12 +302,18 @@ impl WzPng {
         }
 
         /* the total chunk shoud start decryption at index 2 */
-        inflate(false, &decrypted[2..], capacity)
+        let decrypted = decrypted
+            .get(2..)
+            .ok_or(reader::Error::OutOfBounds(2, decrypted.len()))?;
+
+        inflate(false, decrypted, capacity)
     }
 }
 
 #[inline]
 fn inflate(with_header: bool, data: &[u8], capacity: usize) -> Result<Vec<u8>, WzPngParseError> {
+    // deflate can't shrink data to less than 1/1032, don't trust a size that is out of reach
+    let capacity = capacity.min(data.len().saturating_mul(1032));
     let mut deflater = Decompress::new(with_header);
     let mut result = Vec::with_capacity(capacity);
 
@@ -555,7 +574,7 @@ fn get_image_from_dxt5(
 
 fn get_pixel_data_form_517(raw_data: &[u8], width: u32, height: u32) -> Vec<u8> {
     /* pixels is 256 times of raw_data */
-    let mut pixels: Vec<u8> = vec![0; (width * height * 2) as usize];
+    let mut pixels: Vec<u8> = vec![0; width as usize * height as usize * 2];
     let mut line_index: usize = 0;
     // 16 probably means rgb565, it store 2 bytes for each pixel.
     let j_steps = (height / 16) as usize;
@@ -880,7 +899,7 @@ fn get_image_from_bc7(
     width: u32,
     height: u32,
 ) -> Result<DynamicImage, WzPngParseError> {
-    let mut output_rgba_u32 = vec![0_u32; (width * height) as usize];
+    let mut output_rgba_u32 = vec![0_u32; width as usize * height as usize];
 
     /* TODO: maybe implement this without external crate, this implementation need extra transform from bgra u32 to u8 */
     decode_bc7(
-- 
2.43.0


From e8d404dcbe024bd27909c0de148c4d2aa622979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 39/47] fix: offsets and counts of a damaged archive header or
 directory panic

---
 src/directory.rs                 | 32 ++++++++++++++------------------
 src/header.rs                    |  5 +++--
 src/reader.rs                    |  5 +++--
 src/util/offset.rs               |  4 ++--
 src/util/string_decryptor/mod.rs |  4 ++--
 src/util/version/mod.rs          |  4 ++--
 src/util/version/pkg1.rs         |  4 +++-
 7 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index 81be764..e04a46d 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -125,9 +125,14 @@ impl WzDirectory {
             .entries
             .iter()
             .map(|entry| {
-                entry.into_wz_node_tuple(parent, self.hash, &self.profile, Arc::clone(&self.reader))
+                entry.try_into_wz_node_tuple(
+                    parent,
+                    self.hash,
+                    &self.profile,
+                    Arc::clone(&self.reader),
+                )
             })
-            .collect();
+            .collect::<Result<_, _>>()?;
 
         // if there has any directory, parse it since it's probably cheep
         for (_, node) in nodes.iter() {
@@ -157,7 +162,8 @@ impl WzDirectory {
             return Err(Error::InvalidEntryCount);
         }
 
-        let mut entries: Vec<WzDirectoryEntry> = Vec::with_capacity(entry_count as usize);
+        // the count is only a claim, it shouldn't decide how much to allocate
+        let mut entries: Vec<WzDirectoryEntry> = Vec::with_capacity(entry_count.min(1024) as usize);
 
         for _ in 0..entry_count {
             let entry = WzDirectoryEntry::read_pkg1_entry(reader)?;
@@ -237,7 +243,8 @@ impl WzDirectory {
             return Err(Error::InvalidEntryCount);
         }
 
-        let mut wz_dir_entries: Vec<WzDirectoryEntry> = Vec::with_capacity(entry_count);
+        // the count is only a claim, it shouldn't decide how much to allocate
+        let mut wz_dir_entries: Vec<WzDirectoryEntry> = Vec::with_capacity(entry_count.min(1024));
 
         for i in 0..entry_count {
             let entry =
@@ -346,10 +353,10 @@ impl WzDirectoryEntry {
             WzDirectoryType::MetaAtOffset => {
                 let str_offset = reader.read_i32()?;
 
-                let offset = reader.header.fstart + str_offset as usize;
+                let offset = reader.header.fstart.wrapping_add(str_offset as usize);
 
                 entry.dir_type = reader.read_u8_at(offset)?.into();
-                entry.name = reader.read_wz_string_meta_at(offset + 1)?;
+                entry.name = reader.read_wz_string_meta_at(offset.wrapping_add(1))?;
             }
             WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => {
                 entry.name = reader.read_wz_string_meta()?;
@@ -418,7 +425,7 @@ impl WzDirectoryEntry {
         hash: u64,
         profile: &WzProfile,
     ) -> Result<(), Error> {
-        if !reader.is_valid_pos(self.offset + self.size) {
+        if !reader.is_valid_pos(self.offset.saturating_add(self.size)) {
             return Err(Error::InvalidWzVersion);
         }
 
@@ -484,15 +491,4 @@ impl WzDirectoryEntry {
 
         Ok((name.clone(), node.into_lock()))
     }
-
-    pub fn into_wz_node_tuple(
-        &self,
-        parent: &WzNodeArc,
-        hash: u64,
-        profile: &WzProfile,
-        reader: Arc<WzReader>,
-    ) -> (WzNodeName, WzNodeArc) {
-        self.try_into_wz_node_tuple(parent, hash, profile, reader)
-            .unwrap()
-    }
 }
diff --git a/src/header.rs b/src/header.rs
index 399e13e..0c72423 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -65,10 +65,11 @@ impl WzHeader {
         self.flags.contains(WzHeaderFlag::PKG2_RANDOM_HEADER64)
     }
 
+    /// Get everything before the content, it's empty when the file doesn't hold all of it.
     #[inline]
     pub fn get_header_slice(buf: &[u8]) -> &[u8] {
-        let fstart = Self::get_wz_fstart(buf).unwrap() as usize;
-        &buf[0..fstart]
+        let fstart = Self::get_wz_fstart(buf).unwrap_or_default() as usize;
+        buf.get(0..fstart).unwrap_or_default()
     }
     #[inline]
     pub fn get_ident(buf: &[u8]) -> Result<PKGVersion> {
diff --git a/src/reader.rs b/src/reader.rs
index e0f4edb..fd1b8d7 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -816,9 +816,10 @@ pub fn read_i64_at(buf: &[u8], pos: usize) -> Result<i64> {
 #[inline]
 pub fn read_string_by_len(buf: &[u8], len: usize, offset: Option<usize>) -> String {
     let offset = offset.unwrap_or(0);
-    let strvec: Vec<u8> = (0..len).map(|index| buf[offset + index]).collect();
+    let start = offset.min(buf.len());
+    let end = offset.saturating_add(len).min(buf.len());
 
-    String::from_utf8_lossy(&strvec).to_string()
+    String::from_utf8_lossy(&buf[start..end]).to_string()
 }
 #[inline]
 pub fn read_wz_string(buf: &[u8]) -> Result<String> {
diff --git a/src/util/offset.rs b/src/util/offset.rs
index 1a197e5..f897184 100644
--- a/src/util/offset.rs
+++ b/src/util/offset.rs
@@ -28,7 +28,7 @@ impl WzOffsetVersion {
     pub fn get_entry_count_calculator(&self) -> EntryCountCalculator {
         match self {
             WzOffsetVersion::Pkg2_64V1 => decrypt_pkg2_entry_count_64_v1,
-            _ => unreachable!(),
+            _ => |_, _, _| Err(directory::Error::UnknownPkgVersion),
         }
     }
 }
@@ -175,7 +175,7 @@ pub fn decrypt_pkg2_entry_count_64_v1(
 ) -> EntryCountResult<usize> {
     let dir_count =
         (encrypted_entry_count ^ header.hash1 as i64 ^ hash as i64 ^ 0x550EC4DD02C468EC) >> 16;
-    if dir_count > i32::MAX as i64 {
+    if !(0..=i32::MAX as i64).contains(&dir_count) {
         return Err(directory::Error::InvalidEntryCount);
     }
     Ok(dir_count as usize)
diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index 62cdf5d..c33011f 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -80,8 +80,8 @@ pub(crate) fn try_get_first_wz_name_meta(buf: &[u8]) -> Result<WzStringMeta, rea
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.fstart + str_offset as usize;
-            reader.read_wz_string_meta_at(offset + 1)?
+            let offset = reader.header.fstart.wrapping_add(str_offset as usize);
+            reader.read_wz_string_meta_at(offset.wrapping_add(1))?
         }
         WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => reader.read_wz_string_meta()?,
         _ => return Err(reader::Error::DecryptError(reader.pos.get())),
diff --git a/src/util/version/mod.rs b/src/util/version/mod.rs
index ef152cb..eb9d414 100644
--- a/src/util/version/mod.rs
+++ b/src/util/version/mod.rs
@@ -139,9 +139,9 @@ pub fn verify_iv_from_wz_file(buf: &[u8], iv: &[u8; 4]) -> Result<(), reader::Er
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.fstart + str_offset as usize;
+            let offset = reader.header.fstart.wrapping_add(str_offset as usize);
             // just check string can be valid string(instead of parse string lossy), so can prove the iv is valid
-            let meta = reader.read_wz_string_meta_at(offset + 1)?;
+            let meta = reader.read_wz_string_meta_at(offset.wrapping_add(1))?;
             reader.try_resolve_wz_string_meta(
                 &meta.string_type,
                 meta.offset,
diff --git a/src/util/version/pkg1.rs b/src/util/version/pkg1.rs
index ece2ea8..7210e5b 100644
--- a/src/util/version/pkg1.rs
+++ b/src/util/version/pkg1.rs
@@ -24,7 +24,9 @@ impl VersionGen {
 
         for i in bind_version.chars() {
             let char_code = i.to_ascii_lowercase() as u32;
-            version_hash = version_hash * 32 + char_code + 1;
+            version_hash = version_hash
+                .wrapping_mul(32)
+                .wrapping_add(char_code + 1);
         }
         version_hash
     }
-- 
2.43.0


From 6896da4adf9ed857c4dbd71c941b1369fe1c4713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 40/47] fix: a damaged image or archive that repeats or nests
 itself overflows the stack or never ends

---
 src/directory.rs           | 28 ++++++++++++++++-
 src/reader.rs              | 35 ++++++++++++++++++++-
 src/util/parse_property.rs | 62 +++++++++++++++++++++++++++++++++-----
 3 files changed, 116 insertions(+), 9 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index e04a46d..65e8f56 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -24,10 +24,17 @@ pub enum Error {
     InvalidEntryCount,
     #[error("Unknown pkg version, can't resolve children")]
     UnknownPkgVersion,
+    #[error("Directories are nested too deep")]
+    NestedTooDeep,
     #[error("Binary reading error")]
     ReaderError(#[from] reader::Error),
 }
 
+/// Directories deeper than this are only made by damaged offsets.
+const MAX_DIRECTORY_DEPTH: usize = 128;
+/// The smallest possible entry, it has type(1), name(1), size(1), checksum(1) and offset(4).
+const MIN_ENTRY_SIZE: usize = 8;
+
 #[derive(Debug, Default, Clone, PartialEq, Eq)]
 #[repr(u8)]
 pub(crate) enum WzDirectoryType {
@@ -111,12 +118,30 @@ impl WzDirectory {
     }
 
     pub fn resolve_children(&mut self, parent: &WzNodeArc) -> Result<WzNodeArcVec, Error> {
+        // damaged offsets can lead to the same directory over and over
+        let mut budget = reader::ReadBudget::new(self.reader.get_size(), MIN_ENTRY_SIZE);
+
+        self.resolve_children_within(parent, MAX_DIRECTORY_DEPTH, &mut budget)
+    }
+
+    fn resolve_children_within(
+        &mut self,
+        parent: &WzNodeArc,
+        depth: usize,
+        budget: &mut reader::ReadBudget,
+    ) -> Result<WzNodeArcVec, Error> {
         if self.block_size == 0 {
             return Ok(vec![]);
         }
 
         self.prepare_entries()?;
 
+        for entry in self.entries.iter() {
+            budget
+                .take(entry.name.length as usize)
+                .ok_or(Error::InvalidEntryCount)?;
+        }
+
         if self.calculate_offset_and_verify().is_err() {
             return Err(Error::InvalidWzVersion);
         }
@@ -140,7 +165,8 @@ impl WzDirectory {
             if let WzObjectType::Directory(dir) = &mut write.object_type {
                 dir.profile = self.profile.clone();
                 dir.hash = self.hash;
-                let children = dir.resolve_children(node)?;
+                let depth = depth.checked_sub(1).ok_or(Error::NestedTooDeep)?;
+                let children = dir.resolve_children_within(node, depth, budget)?;
                 dir.is_parsed = true;
 
                 for (name, child) in children {
diff --git a/src/reader.rs b/src/reader.rs
index fd1b8d7..860c09e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1,6 +1,6 @@
 use memmap2::Mmap;
 use scroll::{Pread, LE};
-use std::cell::Cell;
+use std::cell::{Cell, RefCell};
 use std::ops::DerefMut;
 use std::sync::{Arc, RwLock};
 
@@ -69,6 +69,8 @@ pub struct WzSliceReader<'a> {
     /// current reading position
     pub pos: Cell<usize>,
     _save_pos: Cell<usize>,
+    pub(crate) depth: Cell<usize>,
+    pub(crate) budget: RefCell<ReadBudget>,
     pub header: WzHeader,
     pub keys: SharedWzStringDecryptor,
     pub pkg2_keys: SharedWzStringDecryptor,
@@ -179,6 +181,35 @@ pub trait Reader {
     }
 }
 
+/// The smallest possible property, it has name(1) and type(1).
+const MIN_PROPERTY_SIZE: usize = 2;
+
+/// How much can be read from a file before it's certain that parts are read again and again,
+/// a damaged file would otherwise take time and memory far beyond its own size.
+#[derive(Debug, Clone)]
+pub(crate) struct ReadBudget {
+    entries: usize,
+    name_bytes: usize,
+}
+
+impl ReadBudget {
+    /// A name can be shared by many entries, it just takes an entry of 6 bytes to repeat one.
+    const NAME_RATIO: usize = 256;
+
+    pub(crate) fn new(file_size: usize, min_entry_size: usize) -> Self {
+        Self {
+            entries: file_size / min_entry_size,
+            name_bytes: file_size.saturating_mul(Self::NAME_RATIO),
+        }
+    }
+    /// `None` when there is no budget left for an entry with that name.
+    pub(crate) fn take(&mut self, name_len: usize) -> Option<()> {
+        self.entries = self.entries.checked_sub(1)?;
+        self.name_bytes = self.name_bytes.checked_sub(name_len)?;
+        Some(())
+    }
+}
+
 impl<T: AsRef<[u8]>> WzBaseReader<T> {
     pub fn new(map: T) -> Self {
         let header = map
@@ -297,6 +328,8 @@ impl<'a> WzSliceReader<'a> {
             buf,
             pos: Cell::new(0),
             _save_pos: Cell::new(0),
+            depth: Cell::new(0),
+            budget: RefCell::new(ReadBudget::new(buf.len(), MIN_PROPERTY_SIZE)),
             header: Default::default(),
             keys,
             pkg2_keys,
diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 9147a52..4e0efcb 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -5,6 +5,7 @@ use crate::property::{
 use crate::{
     reader, WzNode, WzNodeArc, WzNodeArcVec, WzNodeName, WzObjectType, WzReader, WzSliceReader,
 };
+use std::cell::Cell;
 use std::sync::Arc;
 use thiserror::Error;
 
@@ -22,10 +23,51 @@ pub enum WzPropertyParseError {
     #[error("Unknown extended property type: {0}, name: {1}, at position: {2}")]
     UnknownExtendedPropertyType(String, WzNodeName, usize),
 
+    #[error("Properties are nested too deep, at position: {0}")]
+    NestedTooDeep(usize),
+
+    #[error("More properties than the data can hold, at position: {0}")]
+    TooManyProperties(usize),
+
     #[error("Binary reading error")]
     ReaderError(#[from] reader::Error),
 }
 
+/// Properties deeper than this are only made by damaged data.
+const MAX_PROPERTY_DEPTH: usize = 128;
+
+/// Counts the properties being parsed around the current one.
+struct Nested<'a>(&'a Cell<usize>);
+
+impl<'a> Nested<'a> {
+    fn enter(reader: &'a WzSliceReader) -> Result<Self, WzPropertyParseError> {
+        let depth = reader.depth.get();
+        if depth >= MAX_PROPERTY_DEPTH {
+            return Err(WzPropertyParseError::NestedTooDeep(reader.pos.get()));
+        }
+        reader.depth.set(depth + 1);
+        Ok(Nested(&reader.depth))
+    }
+}
+
+impl Drop for Nested<'_> {
+    fn drop(&mut self) {
+        self.0.set(self.0.get() - 1);
+    }
+}
+
+/// Read the name or type name of a property. The size of a block can be wrong and lead back to
+/// properties that already been read, this is where such data comes to an end.
+fn read_name(reader: &WzSliceReader, origin_offset: usize) -> Result<String, WzPropertyParseError> {
+    let name = reader.read_wz_string_block(origin_offset)?;
+    reader
+        .budget
+        .borrow_mut()
+        .take(name.len())
+        .ok_or(WzPropertyParseError::TooManyProperties(reader.pos.get()))?;
+    Ok(name)
+}
+
 pub fn parse_property_list(
     parent: Option<&WzNodeArc>,
     org_reader: &Arc<WzReader>,
@@ -39,7 +81,7 @@ pub fn parse_property_list(
     let mut uol_nodes: Vec<WzNodeArc> = Vec::new();
 
     for _ in 0..entry_count {
-        let name: WzNodeName = reader.read_wz_string_block(origin_offset)?.into();
+        let name: WzNodeName = read_name(reader, origin_offset)?.into();
         let property_type = reader.read_u8()?;
         let parsed_node = parse_property_node(
             name,
@@ -165,7 +207,7 @@ pub fn parse_extended_prop(
     origin_offset: usize,
     property_name: WzNodeName,
 ) -> Result<(WzNodeName, WzNodeArc, Option<Vec<WzNodeArc>>), WzPropertyParseError> {
-    let extend_property_type = reader.read_wz_string_block(origin_offset)?;
+    let extend_property_type = read_name(reader, origin_offset)?;
 
     parse_more(
         parent,
@@ -187,6 +229,8 @@ pub fn parse_more(
     property_name: WzNodeName,
     extend_property_type: &str,
 ) -> Result<(WzNodeName, WzNodeArc, Option<Vec<WzNodeArc>>), WzPropertyParseError> {
+    let _nested = Nested::enter(reader)?;
+
     match extend_property_type {
         "Property" => {
             let node = WzNode::new(
@@ -307,9 +351,13 @@ pub fn parse_more(
             let _sound_start_offset = reader.pos.get();
             let sound_size = reader.read_wz_int()? as u32;
             let sound_duration = reader.read_wz_int()? as u32;
-            let sound_offset = end_of_block
-                .checked_sub(sound_size as usize)
-                .ok_or(reader::Error::OutOfBounds(sound_size as usize, end_of_block))?;
+            let sound_offset =
+                end_of_block
+                    .checked_sub(sound_size as usize)
+                    .ok_or(reader::Error::OutOfBounds(
+                        sound_size as usize,
+                        end_of_block,
+                    ))?;
 
             let header_offset: usize = reader.pos.get();
             let header = reader.get_slice_or_error(header_offset..sound_offset)?;
@@ -415,7 +463,7 @@ fn seek_block_children(
     reader: &WzSliceReader,
     origin_offset: usize,
 ) -> Result<Option<BlockChildren>, WzPropertyParseError> {
-    match reader.read_wz_string_block(origin_offset)?.as_str() {
+    match read_name(reader, origin_offset)?.as_str() {
         "Property" => {}
         "Canvas" => {
             reader.skip(1);
@@ -483,7 +531,7 @@ pub fn get_node(
         }
 
         for _ in 0..entry_count {
-            let name = reader.read_wz_string_block(origin_offset)?;
+            let name = read_name(reader, origin_offset)?;
             let property_type = reader.read_u8()?;
 
             if name == current_name && next_path.is_none() {
-- 
2.43.0


From fc3211674b0ede3cf749a2d2ec6b322e154e65e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 41/47] fix: a uol that leads to a node it's inside of makes
 walking never end

---
 src/node.rs           |  4 +++-
 src/util/node_util.rs | 53 +++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 54 insertions(+), 3 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index a8d94b6..c887d36 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -221,8 +221,10 @@ impl WzNode {
             self.children.insert(name, child);
         }
 
+        let mut links = node_util::UolLinks::default();
+
         for node in uol_nodes {
-            node_util::resolve_uol(&node, Some(self));
+            node_util::resolve_uol_acyclic(&node, Some(self), &mut links);
         }
 
         Ok(())
diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 0c59974..6e92133 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -1,5 +1,6 @@
 use crate::{node::Error, WzNode, WzNodeArc, WzNodeCast, WzObjectType};
-use std::sync::Arc;
+use std::collections::{HashMap, HashSet};
+use std::sync::{Arc, RwLock};
 
 #[inline]
 /// Just wrap around of `node.write().unwrap().parse(&node)`
@@ -77,10 +78,49 @@ pub fn get_resolved_uol_path(path: &str, uol_path: &str) -> String {
     pathes.join("/")
 }
 
+/// The parents that got a target of a uol as child, by the address of the target.
+pub(crate) type UolLinks = HashMap<*const RwLock<WzNode>, Vec<WzNodeArc>>;
+
 /// Make a uol node become valid node, second argument is optional,
 /// it prevent the parent is the WzImage while it currently parsing causing the deadlock.
+///
+/// A uol that leads to a node it's inside of will stay a uol node.
 pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
-    let node_parent = node.read().unwrap().parent.upgrade().unwrap();
+    resolve_uol_acyclic(node, wz_image, &mut UolLinks::default());
+}
+
+/// Is `target` the node itself or any node above it, including those above it by a uol?
+fn is_inside(node: &WzNodeArc, target: &WzNodeArc, links: &UolLinks) -> bool {
+    let mut visited = HashSet::new();
+    let mut nodes = vec![Arc::clone(node)];
+
+    while let Some(node) = nodes.pop() {
+        if Arc::ptr_eq(&node, target) {
+            return true;
+        }
+        if !visited.insert(Arc::as_ptr(&node)) {
+            continue;
+        }
+        nodes.extend(links.get(&Arc::as_ptr(&node)).into_iter().flatten().cloned());
+        // the WzImage currently parsing is locked, a uol can't lead above it
+        if let Ok(node) = node.try_read() {
+            nodes.extend(node.parent.upgrade());
+        }
+    }
+
+    false
+}
+
+/// Same as [`resolve_uol`], but with the uols that already been resolved.
+pub(crate) fn resolve_uol_acyclic(
+    node: &WzNodeArc,
+    wz_image: Option<&mut WzNode>,
+    links: &mut UolLinks,
+) {
+    // a node with the same name may have taken the place of the parent
+    let Some(node_parent) = node.read().unwrap().parent.upgrade() else {
+        return;
+    };
 
     if let Some(ref mut uol_target_path) = node
         .read()
@@ -114,6 +154,15 @@ pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
         };
 
         if let Some(target_node) = uol_target {
+            if is_inside(&node_parent, &target_node, links) {
+                return;
+            }
+
+            links
+                .entry(Arc::as_ptr(&target_node))
+                .or_default()
+                .push(Arc::clone(&node_parent));
+
             let node_name = node.read().unwrap().name.clone();
 
             /* when parent is locked, it means it's parent is WzImage, and it currently parsing */
-- 
2.43.0


From 0cb2f6c3d42262b178edd2d6e0b1e34ad0898182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 42/47] fix: walking or dropping nodes chained by uols
 overflows the stack

---
 src/node.rs      | 22 ++++++++++++++++++++++
 src/util/walk.rs | 38 +++++++++++++++++++++++++++-----------
 2 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index c887d36..cd5708b 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -52,6 +52,28 @@ impl From<WzNode> for WzNodeArc {
     }
 }
 
+impl Drop for WzNode {
+    /// uols can put nodes below each other without any limit, so they can't be dropped recursively.
+    fn drop(&mut self) {
+        let mut nodes: Vec<WzNodeArc> = Vec::new();
+        let mut children = std::mem::take(&mut self.children);
+
+        loop {
+            nodes.extend(children.into_iter().map(|(_, child)| child));
+
+            let Some(node) = nodes.pop() else {
+                return;
+            };
+            children = Arc::into_inner(node)
+                .map(|lock| match lock.into_inner() {
+                    Ok(mut node) => std::mem::take(&mut node.children),
+                    Err(poisoned) => std::mem::take(&mut poisoned.into_inner().children),
+                })
+                .unwrap_or_default();
+        }
+    }
+}
+
 impl WzNode {
     pub fn new(
         name: &WzNodeName,
diff --git a/src/util/walk.rs b/src/util/walk.rs
index 6b2fc17..9467d1e 100644
--- a/src/util/walk.rs
+++ b/src/util/walk.rs
@@ -4,21 +4,37 @@ use crate::{WzNodeArc, WzObjectType};
 /// with `force_parse` it will parse every node along the way,
 /// and only unparse `WzImage` after `f` is called to release memory.
 pub fn walk_node(node: &WzNodeArc, force_parse: bool, f: &dyn Fn(&WzNodeArc)) {
-    if force_parse {
-        // ignore the error
-        let _ = node.write().unwrap().parse(node);
-    }
+    let enter = |node: &WzNodeArc| {
+        if force_parse {
+            // ignore the error
+            let _ = node.write().unwrap().parse(node);
+        }
 
-    f(node);
+        f(node);
 
-    for child in node.read().unwrap().children.values() {
-        walk_node(child, force_parse, f);
-    }
+        let mut children: Vec<WzNodeArc> =
+            node.read().unwrap().children.values().cloned().collect();
+        children.reverse();
+
+        (WzNodeArc::clone(node), children)
+    };
 
-    if force_parse && matches!(node.read().unwrap().object_type, WzObjectType::Image(_)) {
-        if let Ok(mut node) = node.write() {
-            node.unparse();
+    // uols can put nodes below each other without any limit, so it can't be recursive.
+    let mut passed = vec![enter(node)];
+
+    while let Some((node, children)) = passed.last_mut() {
+        if let Some(child) = children.pop() {
+            passed.push(enter(&child));
+            continue;
+        }
+
+        if force_parse && matches!(node.read().unwrap().object_type, WzObjectType::Image(_)) {
+            if let Ok(mut node) = node.write() {
+                node.unparse();
+            }
         }
+
+        passed.pop();
     }
 }
 
-- 
2.43.0


From a802dbb9e9abfc31b89e0a8505943ce318735f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 43/47] hook: the RwLock around nodes and keys can be replaced
 with --cfg wz_sched

---
 src/file.rs                      | 3 ++-
 src/lib.rs                       | 2 ++
 src/node.rs                      | 6 ++++--
 src/property/string.rs           | 3 ++-
 src/reader.rs                    | 3 ++-
 src/sync.rs                      | 6 ++++++
 src/util/node_util.rs            | 3 ++-
 src/util/profile.rs              | 3 ++-
 src/util/string_decryptor/mod.rs | 3 ++-
 src/util/version/mod.rs          | 3 ++-
 10 files changed, 26 insertions(+), 9 deletions(-)
 create mode 100644 src/sync.rs

diff --git a/src/file.rs b/src/file.rs
index f0ebb22..bd5b229 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -6,7 +6,8 @@ use crate::{
 };
 use memmap2::Mmap;
 use std::fs::File;
-use std::sync::{Arc, RwLock};
+use crate::sync::RwLock;
+use std::sync::Arc;
 
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
diff --git a/src/lib.rs b/src/lib.rs
index 42aaf1e..24644b9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,6 +8,8 @@ mod node_name;
 mod object;
 pub mod property;
 pub mod reader;
+#[allow(unexpected_cfgs)]
+mod sync;
 pub mod util;
 pub mod wz_image;
 
diff --git a/src/node.rs b/src/node.rs
index cd5708b..74d0d84 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -4,7 +4,8 @@ use crate::{
 };
 use crate::WzMap;
 use std::path::Path;
-use std::sync::{Arc, RwLock, Weak};
+use crate::sync::RwLock;
+use std::sync::{Arc, Weak};
 
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -626,7 +627,8 @@ mod arc_node_serde {
     use serde::de::Deserializer;
     use serde::ser::{SerializeMap, Serializer};
     use serde::{Deserialize, Serialize};
-    use std::sync::{Arc, RwLock};
+    use crate::sync::RwLock;
+    use std::sync::Arc;
 
     pub fn serialize<S, T>(
         val: &WzMap<WzNodeName, Arc<RwLock<T>>>,
diff --git a/src/property/string.rs b/src/property/string.rs
index 12d609c..4ec98cd 100644
--- a/src/property/string.rs
+++ b/src/property/string.rs
@@ -2,7 +2,8 @@ use crate::util::string_decryptor::{
     ecb_decryptor::EcbDecryptor, pkg2_decryptor::Pkg2Decryptor, DecrypterType, Decryptor,
 };
 use crate::{reader, Reader, WzNodeArc, WzNodeCast, WzReader};
-use std::sync::{Arc, RwLock};
+use crate::sync::RwLock;
+use std::sync::Arc;
 use thiserror::Error;
 
 #[cfg(feature = "serde")]
diff --git a/src/reader.rs b/src/reader.rs
index 860c09e..95337c0 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -2,7 +2,8 @@ use memmap2::Mmap;
 use scroll::{Pread, LE};
 use std::cell::{Cell, RefCell};
 use std::ops::DerefMut;
-use std::sync::{Arc, RwLock};
+use crate::sync::RwLock;
+use std::sync::Arc;
 
 use crate::header::WzHeader;
 use crate::property::{encrypt_str, WzStringMeta, WzStringType};
diff --git a/src/sync.rs b/src/sync.rs
new file mode 100644
index 0000000..ff0660b
--- /dev/null
+++ b/src/sync.rs
@@ -0,0 +1,6 @@
+//! The lock around nodes and keys. It is the one of std; `--cfg wz_sched` builds the crate with a
+//! stand-in instead that lets a test decide how threads take turns.
+#[cfg(not(wz_sched))]
+pub use std::sync::RwLock;
+#[cfg(wz_sched)]
+pub use wz_sched::RwLock;
diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 6e92133..8665e5e 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -1,6 +1,7 @@
 use crate::{node::Error, WzNode, WzNodeArc, WzNodeCast, WzObjectType};
 use std::collections::{HashMap, HashSet};
-use std::sync::{Arc, RwLock};
+use crate::sync::RwLock;
+use std::sync::Arc;
 
 #[inline]
 /// Just wrap around of `node.write().unwrap().parse(&node)`
diff --git a/src/util/profile.rs b/src/util/profile.rs
index e4e16be..838bab5 100644
--- a/src/util/profile.rs
+++ b/src/util/profile.rs
@@ -2,7 +2,8 @@ use crate::{
     util::{offset::WzOffsetVersion, string_decryptor::DecrypterType},
     version::pkg2::{Pkg2VersionGen, Pkg2VersionGenV6},
 };
-use std::sync::{LazyLock, RwLock};
+use crate::sync::RwLock;
+use std::sync::LazyLock;
 
 #[derive(Debug, Clone, Copy, Default, Eq, PartialEq)]
 pub enum WzProfileVersion {
diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index c33011f..7781045 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -1,4 +1,5 @@
-use std::sync::{Arc, LazyLock, OnceLock, RwLock};
+use crate::sync::RwLock;
+use std::sync::{Arc, LazyLock, OnceLock};
 
 pub mod ecb_decryptor;
 pub mod pkg2_decryptor;
diff --git a/src/util/version/mod.rs b/src/util/version/mod.rs
index eb9d414..14aa18f 100644
--- a/src/util/version/mod.rs
+++ b/src/util/version/mod.rs
@@ -4,7 +4,8 @@ pub mod pkg2;
 use crate::util::maple_crypto_constants::{WZ_GMSIV, WZ_MSEAIV};
 use crate::util::string_decryptor::{ecb_decryptor::EcbDecryptor, Decryptor};
 use crate::{directory::WzDirectoryType, reader, Reader, WzSliceReader};
-use std::sync::{Arc, RwLock};
+use crate::sync::RwLock;
+use std::sync::Arc;
 
 pub fn get_iv_by_maple_version(version: WzMapleVersion) -> [u8; 4] {
     match version {
-- 
2.43.0


From 14d725988a73953e09a6d26ab859666376784f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 44/47] fix: walking the same nodes from several threads misses
 the content of an image another walk just unparsed

---
 src/util/walk.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/util/walk.rs b/src/util/walk.rs
index 9467d1e..1e0f8bf 100644
--- a/src/util/walk.rs
+++ b/src/util/walk.rs
@@ -1,19 +1,29 @@
-use crate::{WzNodeArc, WzObjectType};
+use crate::{WzNode, WzNodeArc, WzObjectType};
 
 /// recursively walk a wz node, passing `&WzNodeArc` to `f`.
 /// with `force_parse` it will parse every node along the way,
 /// and only unparse `WzImage` after `f` is called to release memory.
 pub fn walk_node(node: &WzNodeArc, force_parse: bool, f: &dyn Fn(&WzNodeArc)) {
+    let children_of =
+        |node: &WzNode| -> Vec<WzNodeArc> { node.children.values().cloned().collect() };
+
     let enter = |node: &WzNodeArc| {
-        if force_parse {
+        let parsed_children = if force_parse {
+            let mut node_write = node.write().unwrap();
             // ignore the error
-            let _ = node.write().unwrap().parse(node);
-        }
+            let _ = node_write.parse(node);
+            children_of(&node_write)
+        } else {
+            vec![]
+        };
 
         f(node);
 
-        let mut children: Vec<WzNodeArc> =
-            node.read().unwrap().children.values().cloned().collect();
+        let mut children = children_of(&node.read().unwrap());
+        if children.is_empty() {
+            // another thread walking the same node may already unparse it
+            children = parsed_children;
+        }
         children.reverse();
 
         (WzNodeArc::clone(node), children)
-- 
2.43.0


From ff09a6b006071b4fc95b7964c9627b0a6ea01005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 45/47] fix: an outlink leads nowhere when another thread
 unparses the image it just parsed

---
 src/util/node_util.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 8665e5e..77d08bc 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -33,9 +33,10 @@ pub fn resolve_outlink(path: &str, node: &WzNodeArc, force_parse: bool) -> Optio
             if target.is_some() || is_parsed {
                 return target;
             }
-            parse_node(&node).ok()?;
-            let target = node.read().unwrap().at(name);
-            target
+            // another thread can unparse it right after
+            let mut node_write = node.write().unwrap();
+            node_write.parse(&node).ok()?;
+            node_write.at(name)
         })
     } else {
         parent_wz_base.read().unwrap().at_path(path)
-- 
2.43.0


From 22003ee8b15be35ef7c28388dbeecaa55628c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 46/47] fix: following a link can lock out another thread that
 goes down to the same node

---
 src/util/node_util.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 77d08bc..cf94ae2 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -12,7 +12,9 @@ pub fn parse_node(node: &WzNodeArc) -> Result<(), Error> {
 #[inline]
 /// Resolve a `_inlink` path, a `_inlink` path always start from a `WzImage`.
 pub fn resolve_inlink(path: &str, node: &WzNodeArc) -> Option<WzNodeArc> {
-    let parent_wz_image = node.read().unwrap().get_parent_wz_image()?;
+    let parent_wz_image = filter_parent(node, |node| {
+        matches!(node.object_type, WzObjectType::Image(_))
+    })?;
     let parent_wz_image = parent_wz_image.read().unwrap();
     parent_wz_image.at_path(path)
 }
@@ -20,7 +22,9 @@ pub fn resolve_inlink(path: &str, node: &WzNodeArc) -> Option<WzNodeArc> {
 #[inline]
 /// Resolve a `_outlink` path, a `_outlink` path always start from Wz's data root(a.k.a `Base.wz`).
 pub fn resolve_outlink(path: &str, node: &WzNodeArc, force_parse: bool) -> Option<WzNodeArc> {
-    let parent_wz_base = node.read().unwrap().get_base_wz_file()?;
+    let parent_wz_base = filter_parent(node, |node| {
+        matches!(node.object_type, WzObjectType::File(_)) && node.name.as_str() == "Base"
+    })?;
 
     if force_parse {
         // only nodes that really need a parse are locked for writing, the caller may be holding
@@ -43,6 +47,20 @@ pub fn resolve_outlink(path: &str, node: &WzNodeArc, force_parse: bool) -> Optio
     }
 }
 
+/// Same as `WzNode::filter_parent`, but the node itself isn't locked while looking at those above,
+/// which other threads may hold to get to the node.
+fn filter_parent(node: &WzNodeArc, cb: impl Fn(&WzNode) -> bool) -> Option<WzNodeArc> {
+    let mut parent = node.read().unwrap().parent.upgrade();
+    while let Some(node) = parent {
+        let node_read = node.read().unwrap();
+        if cb(&node_read) {
+            return Some(Arc::clone(&node));
+        }
+        parent = node_read.parent.upgrade();
+    }
+    None
+}
+
 #[inline]
 fn is_parsed(node: &WzNode) -> bool {
     match &node.object_type {
-- 
2.43.0


From 524e71c1977d31ea7a4e28a2258ce1b38f089837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 47/47] fix: the search over all PKG2 generations stops at the
 first one without a candidate

---
 src/util/version/pkg2.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 472fe7e..788b8cd 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -358,11 +358,12 @@ impl Iterator for VersionGen {
             }
         }
 
-        // try using the next generator
-        if self.current_iter.is_none() {
-            if let Some(generator) = self.generators.pop() {
-                self.current_iter = Some(generator.get_iter());
-                return self.current_iter.as_mut().unwrap().next();
+        // try using the next generator, one without any candidate is skipped
+        while let Some(generator) = self.generators.pop() {
+            let mut iter = generator.get_iter();
+            if let Some(result) = iter.next() {
+                self.current_iter = Some(iter);
+                return Some(result);
             }
         }
 
-- 
2.43.0

