From ccfe1f16b979d09168a0e74af3ad4f278a722136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:17 +0000
Subject: [PATCH 01/31] fix: refuse looping, forward and truncated names
 instead of hanging or panicking

---
 src/buffer.rs | 50 ++++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 38f4717..812e58e 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -133,43 +133,45 @@ impl<'a> DnsBuffer<'a> {
     /// compressed.
     pub fn extract_fqdn(&mut self) -> Result<FQDN, DnsError> {
         use crate::{COMPRESSION_MASK, COMPRESSION_MASK_U16};
+        const MAX_LABEL_SIZE: usize = 63;
+        const MAX_FQDN_SIZE: usize = 255;
 
         let mut data = Vec::<Vec<u8>>::new();
-        let mut org_pos = None;
+        let mut byte_size = 1;
+        let mut pos = self.pos;
+        let mut end_pos = None;
+        let mut segment_start = self.pos;
         loop {
-            let len = self.data[self.pos];
+            let len = *self.data.get(pos).ok_or(DnsError::LengthViolation)?;
             if len & COMPRESSION_MASK == COMPRESSION_MASK {
                 // Instead of returning an error we should look up what the pointer value is
                 // and reolve the fqdn here
-
-                if org_pos.is_none() {
-                    org_pos = Some(self.pos + 1);
-                }
-
-                self.pos = (u16::from_be_bytes(self.peek_bytes(2)?.try_into()?)
-                    & !COMPRESSION_MASK_U16) as usize;
-
-                if self.pos >= org_pos.unwrap_or(0) {
-                    self.pos = org_pos.unwrap_or(0);
+                let pointer = self.data.get(pos..pos + 2);
+                let pointer = pointer.ok_or(DnsError::LengthViolation)?;
+                end_pos.get_or_insert(pos + 2);
+
+                // A pointer must refer to a prior occurance of a name. This also guarantees that
+                // the lookup terminates.
+                pos = (u16::from_be_bytes(pointer.try_into()?) & !COMPRESSION_MASK_U16) as usize;
+                if pos >= segment_start {
                     return Err(DnsError::UnresolveableCompressionPointer);
                 }
-            } else if self.pos + len as usize > self.data.len() {
-                // Length encoded in FQDN would run out of the buffer
-                return Err(DnsError::LengthViolation);
+                segment_start = pos;
             } else if len == 0 {
                 // Read stop byte indicating end of FQDN
-                // First we need to reset the position pointer to its original position
-                if let Some(org_pos) = org_pos {
-                    self.pos = org_pos;
-                }
-
-                self.pos += 1;
+                // Continue after the first pointer or, without any pointer, after the stop byte
+                self.pos = end_pos.unwrap_or(pos + 1);
                 return Ok(FQDN::from(data));
             } else {
                 // Consume next part to FQDN
-                self.pos += 1;
-                data.push(self.data[self.pos..self.pos + len as usize].to_vec());
-                self.pos += len as usize;
+                let len = len as usize;
+                byte_size += len + 1;
+                if len > MAX_LABEL_SIZE || byte_size > MAX_FQDN_SIZE {
+                    return Err(DnsError::LengthViolation);
+                }
+                let label = self.data.get(pos + 1..pos + 1 + len);
+                data.push(label.ok_or(DnsError::LengthViolation)?.to_vec());
+                pos += len + 1;
             }
         }
     }
-- 
2.43.0


From 2e45f31f51b585141e741033e9c79f6f20fda2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:20 +0000
Subject: [PATCH 02/31] fix: do not overflow when a huge length is asked from a
 buffer

---
 src/buffer.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 812e58e..8eef13f 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -17,13 +17,12 @@ impl<'a> DnsBuffer<'a> {
     /// Create a new `DnsBuffer` with the same internal byte array as the backing storage
     /// but with a custom length parameter. The start of the new buffer is at index 0 of
     /// the parent buffer.
-    pub fn sub_buffer(&mut self, mut len: usize) -> Result<DnsBuffer, DnsError> {
-        len += self.pos;
-        if len > self.data.len() {
+    pub fn sub_buffer(&mut self, len: usize) -> Result<DnsBuffer, DnsError> {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
         Ok(Self {
-            data: &self.data[0..len],
+            data: &self.data[0..self.pos + len],
             pos: self.pos,
         })
     }
@@ -49,19 +48,18 @@ impl<'a> DnsBuffer<'a> {
     }
 
     /// Advances the current index by `len` bytes.
-    pub fn advance(&mut self, mut len: usize) -> Result<(), DnsError> {
-        len += self.pos;
-        if len > self.data.len() {
+    pub fn advance(&mut self, len: usize) -> Result<(), DnsError> {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
-        self.pos = len;
+        self.pos += len;
         Ok(())
     }
 
     /// Returns a read-only view into the buffer that starts at the current index and ends at
     /// the current position + len without modifying the internal state (e.g. the current index).
     pub fn peek_bytes(&self, len: usize) -> Result<&[u8], DnsError> {
-        if self.pos + len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
         Ok(&self.data[self.pos..self.pos + len])
@@ -70,7 +68,7 @@ impl<'a> DnsBuffer<'a> {
     /// Returns a read-only view into the buffer that starts at the current index and ends at
     /// the current position + len and sets the current index to the end of the returned slice.
     pub fn extract_bytes(&mut self, len: usize) -> Result<&[u8], DnsError> {
-        if self.pos + len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
 
-- 
2.43.0


From be8a05104b3ca60ca402671d4ef4241932819161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:22 +0000
Subject: [PATCH 03/31] fix: refuse unassigned response codes when decoding
 instead of panicking later

---
 src/header.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 91497a3..586a336 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -203,9 +203,14 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Header {
     type Error = DnsError;
 
     fn try_from(buffer: &mut DnsBuffer) -> Result<Self, Self::Error> {
+        let id = buffer.extract_u16()?;
+        let flags = FlagBitfield::from_bytes(buffer.extract_bytes(2)?.try_into()?);
+        // Unassigned response codes can not be represented
+        ResponseCode::try_from(flags.rcode())?;
+
         Ok(Header {
-            id: buffer.extract_u16()?,
-            flags: FlagBitfield::from_bytes(buffer.extract_bytes(2)?.try_into()?),
+            id,
+            flags,
             ques_count: buffer.extract_u16()?,
             ans_count: buffer.extract_u16()?,
             auth_count: buffer.extract_u16()?,
-- 
2.43.0


From bb92a392f3905e7b108f030dfd0dbda9664c8e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:24 +0000
Subject: [PATCH 04/31] fix: do not hand out invalid UTF-8 when a name is
 printed

---
 src/fqdn.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index d1f37ed..74acf67 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -87,8 +87,8 @@ impl FQDN {
 impl Display for FQDN {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         for (idx, name_part) in self.iter().enumerate() {
-            // SAFETY: Safe because the u8 in self.data are parsed from a &str in the constructor
-            write!(f, "{}", unsafe { std::str::from_utf8_unchecked(name_part) })?;
+            // Labels that are parsed from binary data are not necessarily valid utf-8
+            write!(f, "{}", String::from_utf8_lossy(name_part))?;
             if idx + 1 != self.data.len() {
                 write!(f, ".")?;
             }
-- 
2.43.0


From efcc3ded93eb2ee0d990cfe9cefa8a4086cf3e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:26 +0000
Subject: [PATCH 05/31] fix: announce the real length of record data (CAA, OPT,
 SVCB, RRSIG were wrong)

---
 src/resource.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resource.rs b/src/resource.rs
index d79acb8..a51f2de 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -444,9 +444,10 @@ impl ByteConvertible for ResourceRecord {
 
         buffer.extend_from_slice(&u32::to_be_bytes(self.time_to_live));
 
-        buffer.extend_from_slice(&u16::to_be_bytes(self.rdata.byte_size() as u16));
+        let rdata = self.rdata.to_bytes();
+        buffer.extend_from_slice(&u16::to_be_bytes(rdata.len() as u16));
 
-        buffer.extend_from_slice(&self.rdata.to_bytes());
+        buffer.extend_from_slice(&rdata);
 
         buffer
     }
-- 
2.43.0


From 05b606d73030053cc2ef98a4baaef4f48bdd2ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:11 +0000
Subject: [PATCH 06/31] fix: keep SVCB parameter values inside their declared
 length

---
 src/rdata/svcb.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/rdata/svcb.rs b/src/rdata/svcb.rs
index f790ac8..7fae168 100644
--- a/src/rdata/svcb.rs
+++ b/src/rdata/svcb.rs
@@ -199,22 +199,22 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Param {
 
     fn try_from(buffer: &mut DnsBuffer<'a>) -> Result<Self, Self::Error> {
         let key = ParamKey::try_from(buffer.extract_u16()?)?;
-        let mut len = buffer.extract_u16()? as usize;
+        let len = buffer.extract_u16()? as usize;
+        // The value of a parameter never reaches beyond its own length
+        let mut buffer = DnsBuffer::from(buffer.extract_bytes(len)?);
         let val = match key {
             ParamKey::Mandatory => {
                 let mut keys = BTreeSet::default();
-                while len > 0 {
+                while buffer.remaining() > 0 {
                     keys.insert(buffer.extract_u16()?.try_into()?);
-                    len -= 2;
                 }
                 Self::Mandatory(keys)
             }
             ParamKey::Alpn => {
                 let mut alpn = Vec::default();
-                while len > 0 {
+                while buffer.remaining() > 0 {
                     let inner_len = buffer.extract_u8()? as usize;
                     alpn.push(buffer.extract_bytes(inner_len)?.to_vec());
-                    len -= inner_len + 1;
                 }
                 Self::Alpn(alpn)
             }
@@ -231,6 +231,9 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Param {
             },
             ParamKey::Invalid => Self::Invalid,
         };
+        if buffer.remaining() > 0 {
+            return Err(DnsError::LengthViolation);
+        }
         Ok(val)
     }
 }
-- 
2.43.0


From 3998b7d5ef1c05983bdf8d07fc82bd62b76681a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:13 +0000
Subject: [PATCH 07/31] fix: refuse oversized windows in type bitmaps instead
 of overflowing

---
 src/rdata/csync.rs  | 4 ++++
 src/rdata/dnssec.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/rdata/csync.rs b/src/rdata/csync.rs
index 5bd957e..8ef9146 100644
--- a/src/rdata/csync.rs
+++ b/src/rdata/csync.rs
@@ -85,6 +85,10 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Csync {
         while buffer.remaining() > 0 {
             let window_num = buffer.extract_u8()? as u16;
             let window_len = buffer.extract_u8()? as u16;
+            if window_len > 32 {
+                // A window covers 256 types, so its bitmap has at most 32 octets
+                return Err(DnsError::LengthViolation);
+            }
 
             // By extracting the RRTypes from the bitmap it is "guaranteed" that the resulting vec
             // self.types is sorted
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index ac8fa45..a741aa5 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -62,6 +62,10 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Nsec {
         while buffer.remaining() > 0 {
             let window_num = buffer.extract_u8()? as u16;
             let window_len = buffer.extract_u8()? as u16;
+            if window_len > 32 {
+                // A window covers 256 types, so its bitmap has at most 32 octets
+                return Err(DnsError::LengthViolation);
+            }
 
             // By extracting the RRTypes from the bitmap it is "guaranteed" that the resulting vec
             // self.types is sorted
-- 
2.43.0


From 90485238adb6763cfd4464d48c020ce61fe2d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:15 +0000
Subject: [PATCH 08/31] fix: read the SSHFP fingerprint as it is written,
 without a length octet

---
 src/rdata/sshfp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/sshfp.rs b/src/rdata/sshfp.rs
index 701afa1..80755e3 100644
--- a/src/rdata/sshfp.rs
+++ b/src/rdata/sshfp.rs
@@ -36,7 +36,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Sshfp {
         Ok(Self {
             algorithm: buffer.extract_u8()?.try_into()?,
             fingerprint_type: buffer.extract_u8()?.try_into()?,
-            fingerprint: buffer.extract_character_string()?,
+            fingerprint: buffer.extract_bytes(buffer.remaining())?.to_vec(),
         })
     }
 }
-- 
2.43.0


From f7b5b0cf5406880b4d8eeeb09ce4bbbfb883b1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:18 +0000
Subject: [PATCH 09/31] fix: accept CDS and CDNSKEY when decoding

---
 src/question.rs | 4 ++++
 src/resource.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/question.rs b/src/question.rs
index 89667f3..59e5199 100644
--- a/src/question.rs
+++ b/src/question.rs
@@ -159,6 +159,10 @@ impl TryFrom<u16> for QType {
             49 => Ok(Self::DHCID),
             52 => Ok(Self::TLSA),
             55 => Ok(Self::HIP),
+            #[cfg(feature = "dnssec")]
+            59 => Ok(Self::CDS),
+            #[cfg(feature = "dnssec")]
+            60 => Ok(Self::CDNSKEY),
             61 => Ok(Self::OPENPGPKEY),
             62 => Ok(Self::CSYNC),
             64 => Ok(Self::SVCB),
diff --git a/src/resource.rs b/src/resource.rs
index a51f2de..37880d1 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -193,6 +193,10 @@ impl TryFrom<u16> for RecordType {
             49 => Ok(Self::DHCID),
             52 => Ok(Self::TLSA),
             55 => Ok(Self::HIP),
+            #[cfg(feature = "dnssec")]
+            59 => Ok(Self::CDS),
+            #[cfg(feature = "dnssec")]
+            60 => Ok(Self::CDNSKEY),
             61 => Ok(Self::OPENPGPKEY),
             62 => Ok(Self::CSYNC),
             64 => Ok(Self::SVCB),
-- 
2.43.0


From 86af8ea9575d28bfe955f4df07a47eecbcc2970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:20 +0000
Subject: [PATCH 10/31] fix: read odd APL address lengths

---
 src/rdata/apl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/apl.rs b/src/rdata/apl.rs
index f2febbe..48f62b9 100644
--- a/src/rdata/apl.rs
+++ b/src/rdata/apl.rs
@@ -52,7 +52,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Apl {
         let prefix = buffer.extract_u8()?;
         let coded_byte = buffer.extract_u8()?;
         let n = coded_byte & 0x80 != 0;
-        let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7E) as usize)?.to_vec();
+        let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7F) as usize)?.to_vec();
 
         let afd_part = match family {
             1 => {
-- 
2.43.0


From 8bf45492d842719030e360d36bb2721acc2600f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 11/31] fix: do not print to standard output when a TSIG record
 is encoded

---
 src/rdata/tsig.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rdata/tsig.rs b/src/rdata/tsig.rs
index 7db281f..5238c08 100644
--- a/src/rdata/tsig.rs
+++ b/src/rdata/tsig.rs
@@ -106,7 +106,6 @@ impl ByteConvertible for Tsig {
 
     fn to_bytes(&self) -> Vec<u8> {
         let mut buf = Vec::with_capacity(self.byte_size());
-        println!("Test: {:?}", self.algorithm.to_bytes());
         buf.extend(self.algorithm.to_bytes());
         buf.extend(&self.time_signed.to_be_bytes()[2..]); // 48 bytes
         buf.extend(self.fudge.to_be_bytes()); // 16 b
-- 
2.43.0


From 145e47cc5e0c90d42c3dbf3faa044e78d9afa19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:52 +0000
Subject: [PATCH 12/31] fix: do not end a compressed name at an empty label

---
 src/fqdn.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index 74acf67..5cb7be4 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -196,6 +196,10 @@ impl CompressedByteConvertible for FQDN {
     fn byte_size_compressed(&self, names: &mut HashMap<u64, usize>, mut offset: usize) -> usize {
         let mut size = 0;
         for i in 0..self.data.len() {
+            if self.data[i].is_empty() {
+                continue;
+            }
+
             let remaining_fqdn = &self.data[i..];
             let remaining_hash = hash_fqdn(remaining_fqdn);
 
@@ -218,6 +222,12 @@ impl CompressedByteConvertible for FQDN {
         let mut buffer = Vec::new();
 
         for i in 0..self.data.len() {
+            // Empty labels are not part of the binary representation because a zero-length
+            // label terminates the name
+            if self.data[i].is_empty() {
+                continue;
+            }
+
             let remaining_fqdn = &self.data[i..];
             let remaining_hash = hash_fqdn(remaining_fqdn);
 
-- 
2.43.0


From 71e4dba916890fc904db43786ed96f52e451342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:54 +0000
Subject: [PATCH 13/31] fix: do not point at names beyond the reach of
 compression pointers

---
 src/fqdn.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index 5cb7be4..2518442 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -8,6 +8,9 @@ use crate::error::DnsError;
 use crate::util::hash_fqdn;
 use crate::COMPRESSION_MASK_U16;
 
+/// Largest offset a compression pointer can refer to.
+const MAX_POINTER_OFFSET: usize = !COMPRESSION_MASK_U16 as usize;
+
 // struct Label<'a> {
 //     data: &'a [u8],
 // }
@@ -208,7 +211,9 @@ impl CompressedByteConvertible for FQDN {
                 size += 2;
                 return size;
             } else {
-                names.insert(remaining_hash, offset);
+                if offset <= MAX_POINTER_OFFSET {
+                    names.insert(remaining_hash, offset);
+                }
                 offset += self.data[i].len() + 1;
                 size += self.data[i].len() + 1;
             }
@@ -239,7 +244,9 @@ impl CompressedByteConvertible for FQDN {
                 buffer.push(self.data[i].len() as u8);
                 buffer.extend_from_slice(&self.data[i]);
 
-                names.insert(remaining_hash, offset);
+                if offset <= MAX_POINTER_OFFSET {
+                    names.insert(remaining_hash, offset);
+                }
                 offset += self.data[i].len() + 1;
             }
         }
-- 
2.43.0


From d1a13ca967b236622cfd8a2416578e523a657e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:35 +0000
Subject: [PATCH 14/31] fix: write the real section counts in both encodings,
 without misaligned writes

---
 src/packet.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index d542777..5849b98 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -205,7 +205,7 @@ impl Packet {
     }
 
     pub fn take_authorities(&mut self) -> Vec<ResourceRecord> {
-        self.header.ans_count = 0;
+        self.header.auth_count = 0;
         std::mem::take(&mut self.authorities)
     }
 
@@ -238,11 +238,21 @@ impl Packet {
         self.header.add_count = self.additional.len() as u16;
     }
 
+    /// Returns the header with the number of elements that are actually in the packet.
+    fn header_with_counts(&self) -> Header {
+        let mut header = self.header.clone();
+        header.ques_count = self.questions.len() as u16;
+        header.ans_count = self.answers.len() as u16;
+        header.auth_count = self.authorities.len() as u16;
+        header.add_count = self.additional.len() as u16;
+        header
+    }
+
     /// Creates a binary representation of a `Packet` with DNS compression enabled.
     pub fn to_bytes_compressed(&self) -> Vec<u8> {
         let mut used_fqdn = std::collections::HashMap::<u64, usize>::new();
 
-        let mut bin = self.header.to_bytes();
+        let mut bin = self.header_with_counts().to_bytes();
 
         for ques in self.questions.iter() {
             bin.extend_from_slice(&ques.to_bytes_compressed(&mut used_fqdn, bin.len()));
@@ -295,22 +305,7 @@ impl ByteConvertible for Packet {
         }
 
         let mut bin = Vec::with_capacity(byte_len);
-        bin.extend_from_slice(&self.header.to_bytes());
-
-        // Set correct number of element into the header
-        let mut ptr = bin.as_mut_ptr() as *mut u16;
-        // SAFETY: Safe to dereference the pointer because the vector the pointer points to
-        // was created with the expected capacity of the header struct beforehand
-        unsafe {
-            ptr = ptr.offset(2);
-            *ptr = (self.questions.len() as u16).to_be();
-            ptr = ptr.offset(1);
-            *ptr = (self.answers.len() as u16).to_be();
-            ptr = ptr.offset(1);
-            *ptr = (self.authorities.len() as u16).to_be();
-            ptr = ptr.offset(1);
-            *ptr = (self.additional.len() as u16).to_be();
-        };
+        bin.extend_from_slice(&self.header_with_counts().to_bytes());
 
         for ques in self.questions.iter() {
             bin.extend_from_slice(&ques.to_bytes());
-- 
2.43.0


From 88d910115ab399ff83d3fa96b017190c16bc96a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:37 +0000
Subject: [PATCH 15/31] fix: keep the counts of a packet when its header or
 questions are given

---
 src/packet.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 5849b98..9569e83 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -76,13 +76,9 @@ impl Packet {
     /// This sets the necessary flags to make it a query dns packet. Other fields remain defaulted.
     /// This should only be used to query information from a name server.
     pub fn with_questions(id: u16, rc: bool, questions: Vec<Question>) -> Self {
-        Packet {
-            header: Header::new_query(id, rc),
-            questions,
-            answers: Vec::new(),
-            authorities: Vec::new(),
-            additional: Vec::new(),
-        }
+        let mut packet = Packet::new_query(id, rc);
+        packet.set_questions(questions);
+        packet
     }
 
     pub fn id(&self) -> u16 {
@@ -156,6 +152,8 @@ impl Packet {
 
     pub fn set_header(&mut self, header: Header) {
         self.header = header;
+        // The counts are a property of the packet and not of the header it was taken from
+        self.header = self.header_with_counts();
     }
 
     pub fn questions(&self) -> &[Question] {
@@ -340,7 +338,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Packet {
     fn try_from(buffer: &mut DnsBuffer<'a>) -> Result<Self, Self::Error> {
         let mut packet = Packet::default();
 
-        packet.set_header(Header::try_from(buffer as &mut _)?);
+        packet.header = Header::try_from(buffer as &mut _)?;
 
         // Parse questions from buffer
         let mut questions = Vec::with_capacity(packet.header.ques_count as usize);
-- 
2.43.0


From bb792e8981e71f8af7e3f490751adace7e6fca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:14 +0000
Subject: [PATCH 16/31] fix: read the whole payload size of OPT records

---
 src/resource.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/resource.rs b/src/resource.rs
index 37880d1..3bd8a77 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -384,12 +384,22 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for ResourceRecord {
         let a_type = buffer.extract_u16_as::<RecordType>()?;
 
         #[cfg(not(feature = "mdns"))]
-        let a_class = RecordClass::from(buffer.extract_u16()?);
+        let a_class = {
+            let bin_val = buffer.extract_u16()?;
+            if a_type == RecordType::OPT {
+                RecordClass::UdpPayloadSize(bin_val)
+            } else {
+                RecordClass::from(bin_val)
+            }
+        };
         #[cfg(feature = "mdns")]
         let (a_class, cache_flush) = {
             const MDNS_ENABLE_CACHE_FLUSH: u16 = 1 << 15;
             let bin_val = buffer.extract_u16()?;
-            if bin_val & MDNS_ENABLE_CACHE_FLUSH > 0 {
+            if a_type == RecordType::OPT {
+                // All bits of the class field of OPT pseudo records are the payload size
+                (RecordClass::UdpPayloadSize(bin_val), false)
+            } else if bin_val & MDNS_ENABLE_CACHE_FLUSH > 0 {
                 let class_val = bin_val & !MDNS_ENABLE_CACHE_FLUSH;
                 (RecordClass::from(class_val), true)
             } else {
-- 
2.43.0


From 56d51f57ea1d84a9408a0cb68f3f36a0fbac1dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:17 +0000
Subject: [PATCH 17/31] fix: encode EDNS options in one order

---
 src/rdata/opt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rdata/opt.rs b/src/rdata/opt.rs
index e9ec4fa..0837a8b 100644
--- a/src/rdata/opt.rs
+++ b/src/rdata/opt.rs
@@ -58,7 +58,10 @@ impl ByteConvertible for Opt {
 
     fn to_bytes(&self) -> Vec<u8> {
         let mut buff = Vec::with_capacity(self.byte_size());
-        for (code, data) in self.0.iter() {
+        // The order of a hash map differs between processes, the binary representation must not
+        let mut options: Vec<_> = self.0.iter().collect();
+        options.sort_unstable_by_key(|(code, _)| **code);
+        for (code, data) in options {
             buff.extend_from_slice(&u16::to_be_bytes(*code));
             buff.extend_from_slice(&u16::to_be_bytes(data.len() as u16));
             buff.extend_from_slice(data);
-- 
2.43.0


From fff8e1cb4d5c750908e2a38dc8b93cd634ed0398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:20 +0000
Subject: [PATCH 18/31] fix: do not reserve memory for records that cannot be
 in the message

---
 src/packet.rs   | 16 ++++++++++++----
 src/question.rs |  3 +++
 src/resource.rs |  3 +++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 9569e83..85b8418 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -341,14 +341,18 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Packet {
         packet.header = Header::try_from(buffer as &mut _)?;
 
         // Parse questions from buffer
-        let mut questions = Vec::with_capacity(packet.header.ques_count as usize);
+        let mut questions = Vec::with_capacity(
+            (packet.header.ques_count as usize).min(buffer.remaining() / Question::MIN_SIZE),
+        );
         for _ in 0..packet.header.ques_count {
             questions.push(Question::try_from(buffer as &mut _)?);
         }
         packet.questions = questions;
 
         // Parse answer records from buffer
-        let mut answers = Vec::with_capacity(packet.header.ans_count as usize);
+        let mut answers = Vec::with_capacity(
+            (packet.header.ans_count as usize).min(buffer.remaining() / ResourceRecord::MIN_SIZE),
+        );
         for _ in 0..packet.header.ans_count {
             // packet.add_answer(ResourceRecord::try_from(buffer as &mut _)?);
             answers.push(ResourceRecord::try_from(buffer as &mut _)?);
@@ -356,14 +360,18 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Packet {
         packet.answers = answers;
 
         // Parse authority records from buffer
-        let mut authorities = Vec::with_capacity(packet.header.auth_count as usize);
+        let mut authorities = Vec::with_capacity(
+            (packet.header.auth_count as usize).min(buffer.remaining() / ResourceRecord::MIN_SIZE),
+        );
         for _ in 0..packet.header.auth_count {
             authorities.push(ResourceRecord::try_from(buffer as &mut _)?);
         }
         packet.authorities = authorities;
 
         // Parse additional records from buffer
-        let mut additionals = Vec::with_capacity(packet.header.add_count as usize);
+        let mut additionals = Vec::with_capacity(
+            (packet.header.add_count as usize).min(buffer.remaining() / ResourceRecord::MIN_SIZE),
+        );
         for _ in 0..packet.header.add_count {
             additionals.push(ResourceRecord::try_from(buffer as &mut _)?);
         }
diff --git a/src/question.rs b/src/question.rs
index 59e5199..0779407 100644
--- a/src/question.rs
+++ b/src/question.rs
@@ -262,6 +262,9 @@ pub struct Question {
 }
 
 impl Question {
+    /// The number of bytes of the smallest question (root name, type and class).
+    pub(super) const MIN_SIZE: usize = 5;
+
     /// Create a new `Question` instance with a given domain name, type and class.
     pub fn new(q_name: FQDN, q_type: QType, q_class: QClass) -> Self {
         Question {
diff --git a/src/resource.rs b/src/resource.rs
index 3bd8a77..3a1b86d 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -293,6 +293,9 @@ pub struct ResourceRecord {
 }
 
 impl ResourceRecord {
+    /// The number of bytes of the smallest record (root name, fixed fields and no data).
+    pub(super) const MIN_SIZE: usize = 11;
+
     /// Create a new instance of `ResourceRecord`.
     pub fn new(
         a_name: FQDN,
-- 
2.43.0


From 7dcc28ad692d02988634009eca3f58e8ac688a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:43 +0000
Subject: [PATCH 19/31] fix: count the validity of signatures in seconds

---
 src/rdata/dnssec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index a741aa5..1b03e44 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -475,11 +475,11 @@ impl Rrsig {
         let expiration = expiration
             .duration_since(UNIX_EPOCH)
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
-            .as_millis() as u32;
+            .as_secs() as u32;
         let inception = inception
             .duration_since(UNIX_EPOCH)
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
-            .as_millis() as u32;
+            .as_secs() as u32;
 
         let mut rrsig = Self {
             type_covered: rr_set.set_type(),
-- 
2.43.0


From 094efb9932a0e04b64b9198e145603d05717ee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:45 +0000
Subject: [PATCH 20/31] fix: report a failed RSA signature instead of panicking

---
 src/rdata/dnssec.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 1b03e44..1dc78bd 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -827,28 +827,28 @@ impl Algorithm {
                 let rsa_key_pair = ring::rsa::KeyPair::from_pkcs8(private_key)
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let mut signature = vec![0; rsa_key_pair.public().modulus_len()];
-                let _ = rsa_key_pair
+                rsa_key_pair
                     .sign(
                         &ring::signature::RSA_PKCS1_SHA256,
                         &rng,
                         data,
                         &mut signature,
                     )
-                    .map_err(|_| todo!());
+                    .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 Ok(signature)
             }
             Self::RSA_SHA512 => {
                 let rsa_key_pair = ring::rsa::KeyPair::from_pkcs8(private_key)
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let mut signature = vec![0; rsa_key_pair.public().modulus_len()];
-                let _ = rsa_key_pair
+                rsa_key_pair
                     .sign(
                         &ring::signature::RSA_PKCS1_SHA512,
                         &rng,
                         data,
                         &mut signature,
                     )
-                    .map_err(|_| todo!());
+                    .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 Ok(signature)
             }
             Self::ECDSA_P256 => {
-- 
2.43.0


From 9fd8b66ae66d409bf6e7515fa3eb74adf0b2d15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:47 +0000
Subject: [PATCH 21/31] fix: sign and verify RSA digests with the standard
 prefix

---
 src/rdata/dnssec.rs | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 1dc78bd..99ce5bf 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -588,11 +588,7 @@ impl Rrsig {
                     .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
                 Ok(verifier
-                    .verify(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
-                        &sig,
-                        &self.signature,
-                    )
+                    .verify(self.algorithm.pkcs1v15_padding(), &sig, &self.signature)
                     .is_ok())
             }
             Algorithm::DSA_SHA1 => {
@@ -762,6 +758,28 @@ impl Algorithm {
         }
     }
 
+    /// Padding scheme of RSA signatures. The digest is prefixed with the identifier of the hash
+    /// algorithm (RFC 8017, section 9.2, note 1).
+    fn pkcs1v15_padding(&self) -> rsa::pkcs1v15::Pkcs1v15Sign {
+        let prefix: &[u8] = match self {
+            Self::RSA_MD5 => {
+                b"\x30\x20\x30\x0c\x06\x08\x2a\x86\x48\x86\xf7\x0d\x02\x05\x05\x00\x04\x10"
+            }
+            Self::RSA_SHA1 => b"\x30\x21\x30\x09\x06\x05\x2b\x0e\x03\x02\x1a\x05\x00\x04\x14",
+            Self::RSA_SHA256 => {
+                b"\x30\x31\x30\x0d\x06\x09\x60\x86\x48\x01\x65\x03\x04\x02\x01\x05\x00\x04\x20"
+            }
+            Self::RSA_SHA512 => {
+                b"\x30\x51\x30\x0d\x06\x09\x60\x86\x48\x01\x65\x03\x04\x02\x03\x05\x00\x04\x40"
+            }
+            _ => &[],
+        };
+        rsa::pkcs1v15::Pkcs1v15Sign {
+            hash_len: None,
+            prefix: prefix.into(),
+        }
+    }
+
     pub fn sign_data(&self, data: &[u8], private_key: &[u8]) -> Result<Vec<u8>, DnsError> {
         let rng = ring::rand::SystemRandom::new();
 
@@ -778,10 +796,7 @@ impl Algorithm {
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
                 let signature = private_key
-                    .sign(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
-                        digest.as_ref(),
-                    )
+                    .sign(self.pkcs1v15_padding(), digest.as_ref())
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
                 Ok(signature)
@@ -815,10 +830,7 @@ impl Algorithm {
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
                 let signature = private_key
-                    .sign(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
-                        digest.as_ref(),
-                    )
+                    .sign(self.pkcs1v15_padding(), digest.as_ref())
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
                 Ok(signature)
-- 
2.43.0


From b050b1a894dc9ef0856e101b1dc5f1fba37c0944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:17 +0000
Subject: [PATCH 22/31] fix: write and read DSA signatures in one format and
 hash only once

---
 src/rdata/dnssec.rs | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 99ce5bf..39a93b9 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -592,7 +592,7 @@ impl Rrsig {
                     .is_ok())
             }
             Algorithm::DSA_SHA1 => {
-                use dsa::signature::Verifier;
+                use dsa::signature::hazmat::PrehashVerifier;
 
                 // Key data field:
                 // T         1  octet
@@ -605,6 +605,9 @@ impl Rrsig {
                 let p = BigUint::from_bytes_be(public_key_data.extract_bytes(64 + t * 8)?);
                 let g = BigUint::from_bytes_be(public_key_data.extract_bytes(64 + t * 8)?);
                 let y = BigUint::from_bytes_be(public_key_data.extract_bytes(64 + t * 8)?);
+                if public_key_data.remaining() > 0 {
+                    return Err(DnsError::DnsSecVerificationError("Invalid key data".into()));
+                }
 
                 let verifier = dsa::VerifyingKey::from_components(
                     dsa::Components::from_components(p, q, g)
@@ -613,10 +616,23 @@ impl Rrsig {
                 )
                 .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                let signature = dsa::Signature::try_from(self.signature.as_slice())
+                // Signature field (RFC 2536):
+                // T         1  octet
+                // R        20  octets
+                // S        20  octets
+                let mut signature_data = DnsBuffer::from(self.signature.as_ref());
+                if signature_data.extract_u8()? as usize != t {
+                    return Ok(false);
+                }
+                let r = BigUint::from_bytes_be(signature_data.extract_bytes(20)?);
+                let s = BigUint::from_bytes_be(signature_data.extract_bytes(20)?);
+                if signature_data.remaining() > 0 {
+                    return Ok(false);
+                }
+                let signature = dsa::Signature::from_components(r, s)
                     .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                Ok(verifier.verify(&sig, &signature).is_ok())
+                Ok(verifier.verify_prehash(&sig, &signature).is_ok())
             }
             Algorithm::ECDSA_P256 => {
                 // Key data field:
@@ -811,10 +827,24 @@ impl Algorithm {
 
                 let signing_key = SigningKey::from_pkcs8_der(private_key)
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
-                let signature = signing_key.sign_digest(hasher);
+                let signature = signing_key
+                    .try_sign_digest(hasher)
+                    .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
-                let mut sign_data = signature.r().to_bytes_be();
-                sign_data.extend_from_slice(&signature.s().to_bytes_be());
+                // Signature field (RFC 2536):
+                // T         1  octet
+                // R        20  octets
+                // S        20  octets
+                let p_len = (signing_key.verifying_key().components().p().bits() + 7) / 8;
+                let r = signature.r().to_bytes_be();
+                let s = signature.s().to_bytes_be();
+                if !(64..=128).contains(&p_len) || p_len % 8 != 0 || r.len() > 20 || s.len() > 20 {
+                    return Err(DnsError::DnsSecSigningError("Unsupported key size".into()));
+                }
+                let mut sign_data = vec![0; 41];
+                sign_data[0] = ((p_len - 64) / 8) as u8;
+                sign_data[21 - r.len()..21].copy_from_slice(&r);
+                sign_data[41 - s.len()..41].copy_from_slice(&s);
 
                 Ok(sign_data)
             }
-- 
2.43.0


From bf711bf79f0e990e533fa266139678ea40f624f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:19 +0000
Subject: [PATCH 23/31] fix: verify with ECDSA keys as they are stored in
 DNSKEY records

---
 src/rdata/dnssec.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 39a93b9..90b2907 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -639,17 +639,17 @@ impl Rrsig {
                 // 64 bytes (x | y)
                 let verifier = ring::signature::UnparsedPublicKey::new(
                     &ring::signature::ECDSA_P256_SHA256_FIXED,
-                    public_key_data.extract_bytes(public_key_data.remaining())?,
+                    uncompressed_point(&dnskey.public_key, 64),
                 );
 
                 Ok(verifier.verify(&sig, &self.signature).is_ok())
             }
             Algorithm::ECDSA_P384 => {
                 // Key data field:
-                // 97 bytes (x | y)
+                // 96 bytes (x | y)
                 let verifier = ring::signature::UnparsedPublicKey::new(
                     &ring::signature::ECDSA_P384_SHA384_FIXED,
-                    public_key_data.extract_bytes(public_key_data.remaining())?,
+                    uncompressed_point(&dnskey.public_key, 96),
                 );
 
                 Ok(verifier.verify(&sig, &self.signature).is_ok())
@@ -741,6 +741,17 @@ impl ByteConvertible for Rrsig {
     }
 }
 
+/// Elliptic curve points are stored as plain coordinates in DNSKEY records (RFC 6605) but are
+/// marked as uncompressed points for the verification.
+fn uncompressed_point(public_key: &[u8], coordinates_len: usize) -> Vec<u8> {
+    let mut point = Vec::with_capacity(1 + public_key.len());
+    if public_key.len() == coordinates_len {
+        point.push(0x04);
+    }
+    point.extend_from_slice(public_key);
+    point
+}
+
 #[derive(Copy, Clone, Debug, PartialEq, Eq)]
 #[allow(non_camel_case_types)]
 pub enum Algorithm {
-- 
2.43.0


From 3b90a1525bbaf20c6164024c14c9159cacad6bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:03 +0000
Subject: [PATCH 24/31] fix: do not drop NAPTR flags in lower case

---
 src/rdata/naptr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rdata/naptr.rs b/src/rdata/naptr.rs
index 72ac6ab..7e71fa6 100644
--- a/src/rdata/naptr.rs
+++ b/src/rdata/naptr.rs
@@ -185,7 +185,8 @@ impl TryFrom<u8> for Flag {
     type Error = DnsError;
 
     fn try_from(value: u8) -> Result<Self, Self::Error> {
-        match value as char {
+        // The case of the flags is not significant
+        match value.to_ascii_uppercase() as char {
             'S' => Ok(Self::S),
             'A' => Ok(Self::A),
             'U' => Ok(Self::U),
-- 
2.43.0


From 544f6f354ac24b2a0bde38a82fb06229f69ac9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:05 +0000
Subject: [PATCH 25/31] fix: keep all flags of a DNSKEY, they are part of its
 tag and digest

---
 src/rdata/dnssec.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 90b2907..620c185 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -222,6 +222,8 @@ impl CompressedByteConvertible for Nsec {
 pub struct DnsKey {
     pub zone_key: bool,
     pub secure_entry_point: bool,
+    /// Flag bits without a dedicated field (e.g. REVOKE, RFC 5011)
+    other_flags: u16,
     protocol: u8,
     pub algorithm: Algorithm,
     pub public_key: Vec<u8>,
@@ -232,6 +234,7 @@ impl DnsKey {
         Self {
             zone_key: false,
             secure_entry_point: false,
+            other_flags: 0,
             protocol: 3,
             algorithm,
             public_key,
@@ -287,6 +290,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for DnsKey {
         Ok(Self {
             zone_key: (flags & 0b00000001_00000000) != 0,
             secure_entry_point: (flags & 0b00000000_00000001) != 0,
+            other_flags: flags & !0b00000001_00000001,
             protocol,
             algorithm,
             public_key,
@@ -312,7 +316,8 @@ impl ByteConvertible for DnsKey {
 
     fn to_bytes(&self) -> Vec<u8> {
         let mut buff = Vec::with_capacity(4 + self.public_key.len());
-        let combined_flags = ((self.zone_key as u16) << 8) | self.secure_entry_point as u16;
+        let combined_flags =
+            ((self.zone_key as u16) << 8) | self.secure_entry_point as u16 | self.other_flags;
         buff.extend_from_slice(&u16::to_be_bytes(combined_flags));
         buff.push(self.protocol);
         buff.push((self.algorithm).into());
-- 
2.43.0


From ae383c4b1ce0a18fd5d67b63d4323f31c6c65838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:47 +0000
Subject: [PATCH 26/31] fix: do not write empty windows into type bitmaps

---
 src/rdata/csync.rs  | 19 ++++++++++++-------
 src/rdata/dnssec.rs | 38 ++++++++++++++++++++++++--------------
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/rdata/csync.rs b/src/rdata/csync.rs
index 8ef9146..8b8de97 100644
--- a/src/rdata/csync.rs
+++ b/src/rdata/csync.rs
@@ -132,9 +132,11 @@ impl ByteConvertible for Csync {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -162,10 +164,13 @@ impl ByteConvertible for Csync {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Finish block by pushing it into the output buffer. Blocks without any types must
+                // not be included (RFC 4034, section 4.1.2)
+                if block_data.iter().any(|octet| *octet != 0) {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 620c185..3e471f6 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -98,9 +98,11 @@ impl ByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -127,10 +129,13 @@ impl ByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Finish block by pushing it into the output buffer. Blocks without any types must
+                // not be included (RFC 4034, section 4.1.2)
+                if block_data.iter().any(|octet| *octet != 0) {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
@@ -158,9 +163,11 @@ impl CompressedByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -191,10 +198,13 @@ impl CompressedByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Finish block by pushing it into the output buffer. Blocks without any types must
+                // not be included (RFC 4034, section 4.1.2)
+                if block_data.iter().any(|octet| *octet != 0) {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
-- 
2.43.0


From c3b20c101297647600333398c47bd79993663ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:23 +0000
Subject: [PATCH 27/31] fix: compute the key tag of RSA/MD5 keys from their
 modulus

---
 src/rdata/dnssec.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 3e471f6..e11f535 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -272,6 +272,15 @@ impl DnsKey {
     /// First octet of the key tag is the most significant 8 bits of the return value
     /// Second octet of the key tag is the least significant 8 bits of the return value
     fn compute_key_tag(&self) -> u16 {
+        if self.algorithm == Algorithm::RSA_MD5 {
+            // The key tag is the most significant 16 bits of the least significant 24 bits of the
+            // modulus (RFC 4034, appendix B.1)
+            return match self.public_key[..] {
+                [.., high, low, _] => u16::from_be_bytes([high, low]),
+                _ => 0,
+            };
+        }
+
         let mut key_tag = self
             .to_bytes()
             .iter()
-- 
2.43.0


From cf7a09b8f2686caa45aa72527655313aa826b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:25 +0000
Subject: [PATCH 28/31] fix: do not count the label of a wildcard in signature
 records

---
 src/rdata/dnssec.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index e11f535..5eb0894 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -505,10 +505,20 @@ impl Rrsig {
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
             .as_secs() as u32;
 
+        // The label of a wildcard is not counted (RFC 4034, section 3.1.3)
+        let is_wildcard = rr_set
+            .name()
+            .iter()
+            .next()
+            .is_some_and(|label| label == b"*");
+
         let mut rrsig = Self {
             type_covered: rr_set.set_type(),
             algorithm: dnskey.algorithm,
-            labels: rr_set.name().label_count(),
+            labels: rr_set
+                .name()
+                .label_count()
+                .saturating_sub(is_wildcard as u8),
             original_ttl: rr_set.ttl(),
             sig_expiration: expiration,
             sig_inception: inception,
-- 
2.43.0


From ed3377190a8adc1079058eaa2bca07893388a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:22 +0000
Subject: [PATCH 29/31] fix: compare packets by their entries instead of
 outdated counts

---
 src/packet.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 85b8418..660fb2d 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -23,7 +23,7 @@ use crate::resource::ResourceRecord;
 ///     |      Additional     | RRs holding additional information
 ///     +---------------------+
 ///
-#[derive(Clone, Debug, Default, PartialEq, Eq)]
+#[derive(Clone, Debug, Default, Eq)]
 pub struct Packet {
     /// Header section of a packet is always present and includes fields that specify
     /// which of the remaining sections are present, and also specifiy wether the
@@ -269,6 +269,17 @@ impl Packet {
     }
 }
 
+impl PartialEq for Packet {
+    fn eq(&self, other: &Self) -> bool {
+        // Questions can be added and removed through `questions_mut` without updating the counts
+        self.header_with_counts() == other.header_with_counts()
+            && self.questions == other.questions
+            && self.answers == other.answers
+            && self.authorities == other.authorities
+            && self.additional == other.additional
+    }
+}
+
 impl ByteConvertible for Packet {
     fn byte_size(&self) -> usize {
         let mut size = Header::SIZE;
-- 
2.43.0


From 9f236cc956421ab2e84b097a3bf108d46696f165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:15 +0000
Subject: [PATCH 30/31] fix: draw the keys of name hashes at random, fixed ones
 allow computed collisions

---
 src/util.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 6bfc897..9f0afad 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -5,10 +5,17 @@
 /// hash of any occuring FQDN is added in order of occurence into a hashmap. When another FQDN
 /// gets serialized, we can check for previous occurences by simple table lookup to create a
 /// pointer.
+///
+/// The keys of the hash are drawn at random once per process. With fixed keys, anyone could
+/// compute names that share a hash and the serialized packet would confuse them.
 pub(super) fn hash_fqdn(fqdn: &[Vec<u8>]) -> u64 {
-    use std::hash::{Hash, Hasher};
+    use std::collections::hash_map::RandomState;
+    use std::hash::{BuildHasher, Hash, Hasher};
+    use std::sync::OnceLock;
+
+    static KEYS: OnceLock<RandomState> = OnceLock::new();
 
-    let mut hash = std::collections::hash_map::DefaultHasher::new();
+    let mut hash = KEYS.get_or_init(RandomState::new).build_hasher();
     fqdn.hash(&mut hash);
     hash.finish()
 }
-- 
2.43.0


From 6fc9dea9e6549eb3cae91e04a5d3a81ed5c8965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:23 +0000
Subject: [PATCH 31/31] fix: let the chain of error causes end, every error
 named itself as its cause

---
 src/error.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index ff3b1e0..b99fbc5 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -80,7 +80,10 @@ pub enum DnsError {
 
 impl std::error::Error for DnsError {
     fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
-        Some(self)
+        match self {
+            Self::InvalidDnsSecSignatureTimespan(err) => Some(err),
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0

