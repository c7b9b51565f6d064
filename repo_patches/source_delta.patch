From 3a0eb5d109a2143d3686d74e3ea9008c57171b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:32 +0000
Subject: [PATCH 01/43] fix: SHA-512/t digests of every length follow the
 standard

The derivation of the initial value left its own message length behind, so
every SHA-512/t digest was computed with a wrong length field.
The last byte of a digest whose bit length is not a multiple of 8 kept the
wrong bits.
---
 src/sha/sha512.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index a272922..3c4b6cf 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -206,6 +206,7 @@ impl SHA512T {
             sha_.write(s.as_bytes());
             let mut _x = Vec::new();
             sha_.checksum(&mut _x);
+            sha_.len = 0;
             sha_.is_checked = false;
             Some(
                 SHA512T {
@@ -239,7 +240,7 @@ impl Digest for SHA512T {
         match digest.pop() {
             Some(x) => {
                 let y = if rom > 0 {
-                    (x >> (8 - rom)) << rom
+                    (x >> (8 - rom)) << (8 - rom)
                 } else {
                     x
                 };
-- 
2.43.0


From d994203f1a9c02ebe1ef5296986d80218db5559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:32 +0000
Subject: [PATCH 02/43] fix: data written after a checksum starts a new message

MD5, SHA-1, SHA-2 and SM3 continued from the padded state of the previous
message, so every digest after the first was wrong unless reset was called.
---
 src/md5/md5.rs    |  4 ++++
 src/sha/sha1.rs   |  4 ++++
 src/sha/sha256.rs |  7 +++++++
 src/sha/sha512.rs | 10 ++++++++++
 src/sm3/sm3.rs    |  4 ++++
 5 files changed, 29 insertions(+)

diff --git a/src/md5/md5.rs b/src/md5/md5.rs
index 97a6de0..f6bdf50 100644
--- a/src/md5/md5.rs
+++ b/src/md5/md5.rs
@@ -39,6 +39,10 @@ impl Digest for MD5 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.is_checked {
+            self.reset();
+        }
+
         let mut data = data;
         self.len += data.len();
 
diff --git a/src/sha/sha1.rs b/src/sha/sha1.rs
index 0038e90..f7e8c61 100644
--- a/src/sha/sha1.rs
+++ b/src/sha/sha1.rs
@@ -35,6 +35,10 @@ impl Digest for SHA1 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.is_checked {
+            self.reset();
+        }
+
         let mut data = data;
         self.len += data.len();
 
diff --git a/src/sha/sha256.rs b/src/sha/sha256.rs
index 4cf23f4..04487d9 100644
--- a/src/sha/sha256.rs
+++ b/src/sha/sha256.rs
@@ -35,6 +35,10 @@ impl Digest for SHA256 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.is_checked {
+            self.reset();
+        }
+
         let mut bytes = data;
 
         self.len += bytes.len();
@@ -126,6 +130,9 @@ impl Digest for SHA224 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.sha_.is_checked {
+            self.reset();
+        }
         self.sha_.write(data);
     }
 
diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index 3c4b6cf..d283427 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -38,6 +38,10 @@ impl Digest for SHA512 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.is_checked {
+            self.reset();
+        }
+
         let mut bytes = data;
 
         self.len += bytes.len();
@@ -169,6 +173,9 @@ macro_rules! impl_digest_for_sha512_series {
             }
         
             fn write(&mut self, data: &[u8]) {
+                if self.sha_.is_checked {
+                    self.reset();
+                }
                 self.sha_.write(data);
             }
         
@@ -230,6 +237,9 @@ impl Digest for SHA512T {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.sha_.is_checked {
+            self.reset();
+        }
         self.sha_.write(data);
     }
 
diff --git a/src/sm3/sm3.rs b/src/sm3/sm3.rs
index b2ae5d7..47e9551 100644
--- a/src/sm3/sm3.rs
+++ b/src/sm3/sm3.rs
@@ -124,6 +124,10 @@ impl Digest for SM3 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.is_checked {
+            self.reset();
+        }
+
         let mut data = data;
         self.len += data.len();
         
-- 
2.43.0


From 81da17b1407ffdbfa7844ad9a804892afa8a4c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:58 +0000
Subject: [PATCH 03/43] fix: ZUC MAC of a message does not depend on how it is
 written

Every write drew two fresh keystream words and restarted the bit position,
so only a message written in one call had the right MAC.
Asking for the checksum again changed the value, and an empty message had
MAC 0.
---
 src/zuc/zuc_mac.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/zuc/zuc_mac.rs b/src/zuc/zuc_mac.rs
index 0f91371..29f7f58 100644
--- a/src/zuc/zuc_mac.rs
+++ b/src/zuc/zuc_mac.rs
@@ -38,17 +38,18 @@ impl ZUCMac {
             iv[15] = iv[7];
 
             match ZUC::from_slice(ck, iv.as_ref()) {
-                Ok(z) => {
+                Ok(mut z) => {
                     let mut tmp = [0u8; 16];
                     tmp.iter_mut().zip(ck.iter()).for_each(|(e, &k)| {
                         *e = k;
                     });
+                    let (key0, key1) = (z.zuc(), z.zuc());
                     Ok(ZUCMac {
                         zuc: z,
                         ck: tmp,
                         iv,
-                        key0: 0,
-                        key1: 0,
+                        key0,
+                        key1,
                         length: 0,
                         t: 0,
                         is_check: false,
@@ -82,10 +83,8 @@ impl Digest for ZUCMac {
         
         let bound = data.len() << 3;
         
-        self.key0 = self.zuc.zuc();
-        self.key1 = self.zuc.zuc();
         for i in 0..bound {
-            let rem = i & 31;
+            let rem = (self.length + i) & 31;
             if Self::is_one(data, i) {
                 if rem == 0 {
                     self.t ^= self.key0;
@@ -113,6 +112,7 @@ impl Digest for ZUCMac {
                 self.t ^= self.zuc.zuc();
             }
 
+            self.is_check = true;
         }
         
         digest.clear();
@@ -121,9 +121,10 @@ impl Digest for ZUCMac {
 
     fn reset(&mut self) {
         self.zuc.set_slice(self.ck.as_ref(), self.iv.as_ref()).unwrap();
-        self.key0 = 0;
-        self.key1 = 0;
+        self.key0 = self.zuc.zuc();
+        self.key1 = self.zuc.zuc();
         self.length = 0;
         self.t = 0;
+        self.is_check = false;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 1087793334fb8bf5f3f75b6e33c54dc643601577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:38 +0000
Subject: [PATCH 04/43] fix: refuse sponge rates outside the documented range

A rate of 0 or of at least the permutation width was accepted; using such a
sponge then divides by zero or gives meaningless output.
---
 src/keccak/keccak.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keccak/keccak.rs b/src/keccak/keccak.rs
index 0e9185e..682336c 100644
--- a/src/keccak/keccak.rs
+++ b/src/keccak/keccak.rs
@@ -393,7 +393,7 @@ impl KeccakSponge {
     /// Sponge[Keccak-p[b,nr], pad10*1, rate]  
     /// `rate` must be a positive integer and strictly less than the width `self.widths()`.
     pub fn new(keccak: Keccak, rate: usize) -> Result<KeccakSponge, CryptoError> {
-        if rate > 0 || rate < keccak.widths() {
+        if rate > 0 && rate < keccak.widths() {
             Ok(KeccakSponge {
                 rate,
                 keccak,
-- 
2.43.0


From 8e54dc1d3c43bebac27a64f7582e94d8f5d6f8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:38 +0000
Subject: [PATCH 05/43] fix: ZUC cipher reports the bytes it wrote for short
 calls

A call served entirely from left-over keystream returned 0 although it had
produced output.
---
 src/zuc/zuc_cipher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zuc/zuc_cipher.rs b/src/zuc/zuc_cipher.rs
index 2223a2a..61dec07 100644
--- a/src/zuc/zuc_cipher.rs
+++ b/src/zuc/zuc_cipher.rs
@@ -103,7 +103,7 @@ impl Cipher for ZUCCipher {
         self.get_key().truncate(self.get_key().len() - len);
         
         if plaintext_block.is_empty() {
-            return Ok(0);
+            return Ok(dst.len());
         }
 
         let len = (plaintext_block.len() + 3) >> 2;
-- 
2.43.0


From 66042567c645493f92ed97906636657752abc83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:07 +0000
Subject: [PATCH 06/43] fix: one-zero padding is minimal and removed strictly

Padding a message one byte short of a block added a whole block of zeros,
which the decryption streams cannot remove. Unpadding skipped over bytes that
are neither 0x80 nor zero and cut off message data.
---
 src/cipher_mode/padding.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cipher_mode/padding.rs b/src/cipher_mode/padding.rs
index 58f1990..baba603 100644
--- a/src/cipher_mode/padding.rs
+++ b/src/cipher_mode/padding.rs
@@ -29,12 +29,9 @@ impl<C: Cipher> Padding for DefaultPadding<C> {
     fn padding(&self, buf: &mut Vec<u8>) {
         buf.push(0x80);
         let old_len = buf.len();
-        if self.block_size < old_len {
-            buf.resize(old_len + (self.block_size - (old_len % self.block_size)), 0);
-        } else if self.block_size > old_len {
-            buf.resize(self.block_size, 0);
-        } else {
-            buf.resize(self.block_size << 1, 0);
+        let remain = old_len % self.block_size;
+        if remain != 0 {
+            buf.resize(old_len + (self.block_size - remain), 0);
         }
     }
 
@@ -46,6 +43,8 @@ impl<C: Cipher> Padding for DefaultPadding<C> {
             } else if e == 0x80 {
                 buf.truncate(buf.len() - len - 1);
                 return Ok(buf.len());
+            } else {
+                break;
             }
         }
         
-- 
2.43.0


From 94c296eece2718ab803fb4999a20cffd9706962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:07 +0000
Subject: [PATCH 07/43] fix: CBC chains the padded last block and restarts from
 the IV

One-shot encryption encrypted the padded tail without chaining it, so the end
of every padded message decrypted to garbage. A stream whose message ended on
a block boundary without padding kept its chaining value for the next message.
---
 src/cipher_mode/cbc.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 3c71d60..deca398 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -153,8 +153,12 @@ impl<C, P, IV> Cipher for CBC<C, P, IV>
         while !data.is_empty() {
             let len = std::cmp::min(block_len, data.len());
             let tmp = &data[..len];
-            match self.cipher.encrypt(txt, tmp) {
+            Self::xor_iv(tmp, &mut cur_iv);
+            cur_iv.truncate(len);
+            match self.cipher.encrypt(txt, cur_iv.as_slice()) {
                 Ok(_) => {
+                    cur_iv.clear();
+                    cur_iv.extend_from_slice(txt.as_slice());
                     dst.append(txt);
                     data = &data[len..];
                 },
@@ -304,8 +308,7 @@ impl<C, P, IV> EncryptStream for CBCEncrypt<C, P, IV>
             Self::xor_iv(txt, tmp, &self.ij);
             match self.cbc.cipher.encrypt(&mut self.ij, txt.as_slice()) {
                 Ok(_) => {
-                    self.pond.append(&mut self.ij);
-                    self.ij.extend(self.cbc.cur_iv.iter());
+                    self.pond.extend(self.ij.iter());
                     data = &data[len..];
                 },
                 Err(e) => {
@@ -315,6 +318,8 @@ impl<C, P, IV> EncryptStream for CBCEncrypt<C, P, IV>
         }
         
         self.data.clear();
+        self.ij.clear();
+        self.ij.extend(self.cbc.cur_iv.iter());
         Ok(Pond::new(&mut self.pond, true))
     }
 }
-- 
2.43.0


From 77bb7e968f926b45acb2eb613deebb4559a57ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:07 +0000
Subject: [PATCH 08/43] fix: ECB and CBC decryption streams accept an empty
 unpadded message

Finishing without input failed although the one-shot call returns the empty
message that was encrypted.
---
 src/cipher_mode/cbc.rs | 8 +++++++-
 src/cipher_mode/ecb.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index deca398..eb6ee85 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -364,7 +364,13 @@ impl<C, P, IV> DecryptStream for CBCDecrypt<C, P, IV>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         let txt = self.cbc.get_buf();
-        match self.cbc.cipher.decrypt(txt, self.data.as_slice()) {
+        txt.clear();
+        let res = if self.data.is_empty() {
+            Ok(())
+        } else {
+            self.cbc.cipher.decrypt(txt, self.data.as_slice()).map(|_| {})
+        };
+        match res {
             Ok(_) => {
                 txt.iter_mut().zip(self.ij.iter()).for_each(|(a, &b)| {
                     *a ^= b;
diff --git a/src/cipher_mode/ecb.rs b/src/cipher_mode/ecb.rs
index 7640665..eaa68c6 100644
--- a/src/cipher_mode/ecb.rs
+++ b/src/cipher_mode/ecb.rs
@@ -305,7 +305,13 @@ impl<C, P> DecryptStream for ECBDecrypt<C, P>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         let txt = self.ecb.get_buf();
-        match self.ecb.cipher.decrypt(txt, self.data.as_slice()) {
+        txt.clear();
+        let res = if self.data.is_empty() {
+            Ok(())
+        } else {
+            self.ecb.cipher.decrypt(txt, self.data.as_slice()).map(|_| {})
+        };
+        match res {
             Ok(_) => {
                 if let Err(e) = self.ecb.padding.unpadding(txt) {
                     Err(e)
-- 
2.43.0


From 938e9ecedd705a2268ccaedd1e64e87d40dc6a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:07 +0000
Subject: [PATCH 09/43] fix: CTR uses the low end of a counter longer than a
 block

The leading bytes of such a counter do not change from block to block, so the
same key stream was used for every block of a message.
---
 src/cipher_mode/ctr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cipher_mode/ctr.rs b/src/cipher_mode/ctr.rs
index 668faf5..e13d9ad 100644
--- a/src/cipher_mode/ctr.rs
+++ b/src/cipher_mode/ctr.rs
@@ -61,7 +61,7 @@ impl<C, T>  CTR<C, T>
         while !data.is_empty() {
             match self.get_counter().next() {
                 Some(c) => {
-                    match self.cipher.encrypt(oj, &c.as_slice()[..block_len]) {
+                    match self.cipher.encrypt(oj, &c.as_slice()[(c.len() - block_len)..]) {
                         Ok(_) => {
                             let len = std::cmp::min(block_len,data.len());
                             let block = &data[..len];
-- 
2.43.0


From a2e1f4e7643d6a05d8ada869d7158a1bf12357a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:26 +0000
Subject: [PATCH 10/43] fix: CFB without padding refuses a message that ends
 inside a segment

The bytes after the last whole segment were silently dropped.
---
 src/cipher_mode/cfb.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index 97961de..0e9b381 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -121,6 +121,15 @@ impl<C, P, IV> CFB<C, P, IV>
         }
     }
     
+    fn check_segments(&self, len: usize) -> Result<(), CryptoError> {
+        if len % self.s != 0 {
+            Err(CryptoError::new(CryptoErrorKind::InvalidParameter,
+                format!("Wrong message len: {}, the length(in bytes) should be a multiple of {}", len, self.s)))
+        } else {
+            Ok(())
+        }
+    }
+    
     fn encrypt_inner(&self, ij: &mut Vec<u8>, dst: &mut Vec<u8>, mut data: &[u8]) -> Result<usize, CryptoError> {
         let oj = self.get_buf();
         while data.len() >= self.s {
@@ -199,6 +208,7 @@ impl<C, P, IV> Cipher for CFB<C, P, IV>
         let mut data = plaintext_block[(plaintext_block.len() - remain)..plaintext_block.len()].to_vec();
         
         self.padding.padding(&mut data);
+        self.check_segments(data.len())?;
 
         self.encrypt_inner(&mut ij, dst, data.as_slice())
     }
@@ -284,6 +294,7 @@ impl<C, P, IV> EncryptStream for CFBEncrypt<C, P, IV>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         self.cfb.padding.padding(&mut self.data);
+        self.cfb.check_segments(self.data.len())?;
 
         if let Err(e) = self.cfb.encrypt_inner(&mut self.ij, &mut self.pond, self.data.as_slice()) {
             Err(e)
-- 
2.43.0


From 59241e7b3c4ad34edf02974cae76be4cbdda5c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:26 +0000
Subject: [PATCH 11/43] fix: CFB decryption stream removes padding whatever was
 drawn off before

The padding was looked for in the output that had not been drawn off yet, so
drawing off every write made finish fail or remove message data. A ciphertext
ending inside a segment made finish panic.
---
 src/cipher_mode/cfb.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index 0e9b381..a4f9114 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -316,7 +316,9 @@ impl<C, P, IV> DecryptStream for CFBDecrypt<C, P, IV>
             self.data.extend_from_slice(data);
         }
         
-        let bound = self.data.len() - (self.data.len() % self.cfb.s);
+        // the last block may be padding, so it is kept until the end of the message
+        let ready = self.data.len().saturating_sub(self.cfb.cipher.block_size().unwrap_or(1));
+        let bound = ready - (ready % self.cfb.s);
         let data = &self.data.as_slice()[..bound];
         
         if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut self.pond, data) {
@@ -332,12 +334,16 @@ impl<C, P, IV> DecryptStream for CFBDecrypt<C, P, IV>
     }
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
-        if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut self.pond, self.data.as_slice()) {
+        self.cfb.check_segments(self.data.len())?;
+        
+        let mut last = Vec::with_capacity(self.data.len());
+        if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut last, self.data.as_slice()) {
             Err(e)
         } else {
-            if let Err(e) = self.cfb.padding.unpadding(&mut self.pond) {
+            if let Err(e) = self.cfb.padding.unpadding(&mut last) {
                 return Err(e);
             } else {
+                self.pond.append(&mut last);
                 self.data.clear();
                 self.ij.clear();
                 self.ij.extend(self.cfb.cur_iv.iter());
-- 
2.43.0


From 2055a2fb8832475424e9da1411c26640bdeb2bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:14 +0000
Subject: [PATCH 12/43] fix: a failed IV update leaves the previous IV in force

The new IV was generated in place, so a failing random source or a provider
delivering the wrong length left CBC, CFB and OFB with a short or empty IV.
---
 src/cipher_mode/cbc.rs | 8 +++++---
 src/cipher_mode/cfb.rs | 8 +++++---
 src/cipher_mode/ofb.rs | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index eb6ee85..58cecba 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -50,12 +50,14 @@ impl<C, P, IV> CBC<C, P, IV>
     /// update initialization vectors
     pub fn update_iv(&mut self) -> Result<&Vec<u8>, CryptoError> {
         let block_len = self.cipher.block_size().unwrap_or(1);
-        match self.iv.initial_vec(&mut self.cur_iv) {
+        let mut iv = Vec::with_capacity(block_len);
+        match self.iv.initial_vec(&mut iv) {
             Ok(_) => {
-                if self.cipher.block_size().is_some() && block_len != self.cur_iv.len() {
+                if self.cipher.block_size().is_some() && block_len != iv.len() {
                     Err(CryptoError::new(CryptoErrorKind::InnerErr,
-                                                format!("Wrong IV len: {}, The IV len must be the {} in bytes", self.cur_iv.len(), block_len)))
+                                                format!("Wrong IV len: {}, The IV len must be the {} in bytes", iv.len(), block_len)))
                 } else {
+                    self.cur_iv = iv;
                     Ok(&self.cur_iv)
                 }
             },
diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index a4f9114..48a8d56 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -65,12 +65,14 @@ impl<C, P, IV> CFB<C, P, IV>
     /// update initialization vectors
     pub fn update_iv(&mut self) -> Result<&Vec<u8>, CryptoError> {
         let block_len = self.cipher.block_size().unwrap_or(1);
-        match self.iv.initial_vec(&mut self.cur_iv) {
+        let mut iv = Vec::with_capacity(block_len);
+        match self.iv.initial_vec(&mut iv) {
             Ok(_) => {
-                if self.cipher.block_size().is_some() && block_len != self.cur_iv.len() {
+                if self.cipher.block_size().is_some() && block_len != iv.len() {
                     Err(CryptoError::new(CryptoErrorKind::InnerErr,
-                                         format!("Wrong IV len: {}, the IV len must be the {} in bytes", self.cur_iv.len(), block_len)))
+                                         format!("Wrong IV len: {}, the IV len must be the {} in bytes", iv.len(), block_len)))
                 } else {
+                    self.cur_iv = iv;
                     Ok(&self.cur_iv)
                 }
             },
diff --git a/src/cipher_mode/ofb.rs b/src/cipher_mode/ofb.rs
index 1ebe0ca..71969b2 100644
--- a/src/cipher_mode/ofb.rs
+++ b/src/cipher_mode/ofb.rs
@@ -41,12 +41,14 @@ impl<C, IV> OFB<C, IV>
     
     pub fn update_iv(&mut self) -> Result<&Vec<u8>, CryptoError> {
         let len = self.cipher.block_size().unwrap_or(1);
-        if let Err(e) = self.iv.initial_vec(&mut self.cur_iv) {
+        let mut iv = Vec::with_capacity(len);
+        if let Err(e) = self.iv.initial_vec(&mut iv) {
             Err(e)
-        } else if self.cur_iv.len() != self.cipher.block_size().unwrap_or(self.cur_iv.len()) {
+        } else if iv.len() != self.cipher.block_size().unwrap_or(iv.len()) {
             return Err(CryptoError::new(CryptoErrorKind::InnerErr,
-                                        format!("Wrong IV len: {}, the IV len must be the {} in bytes", self.cur_iv.len(), len)));
+                                        format!("Wrong IV len: {}, the IV len must be the {} in bytes", iv.len(), len)));
         } else {
+            self.cur_iv = iv;
             Ok(&self.cur_iv)
         }
     }
-- 
2.43.0


From e5ccbc632876492e34d158b089cec649657e41e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:15 +0000
Subject: [PATCH 13/43] fix: PKCS#1 v1.5 encryption of an empty message gives a
 ciphertext

---
 src/rsa/pkcs1.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 244e54f..7ea1a9b 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -39,10 +39,6 @@ impl<H, R> PKCS1Inner<H, R>
     
     fn encrypt(&mut self, cipher: &mut Vec<u8>, msg: &[u8]) -> Result<(), CryptoError> {
         cipher.clear();
-        if msg.is_empty() {
-            return Ok(());
-        }
-        
         self.kp.public_key().is_valid()?;
         
         let k = self.kp.modulus_len();
-- 
2.43.0


From 3efc910e497b2cce97ae7d6a344605631b31069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:15 +0000
Subject: [PATCH 14/43] fix: PKCS#1 v1.5 encryption fails when the random
 source runs dry

---
 src/rsa/pkcs1.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 7ea1a9b..3b65033 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -62,6 +62,10 @@ impl<H, R> PKCS1Inner<H, R>
                 break;
             }
         }
+        if em.len() < bound {
+            em.clear();
+            return Err(CryptoError::new(CryptoErrorKind::OuterErr, "The random source failed"));
+        }
         em.truncate(bound);
         em.push(0x00);
         em.extend(msg.iter());
-- 
2.43.0


From 93aa661db1a18d58109b2f8963ee51e44b353c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:15 +0000
Subject: [PATCH 15/43] fix: OAEP decryption accepts only ciphertexts of the
 modulus length

---
 src/rsa/oaep.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 851c5e9..79b965e 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -103,8 +103,8 @@ impl<H, R> OAEPInner<H, R>
         kp.public_key().is_valid()?;
         
         let (k, h_len) = (kp.public_key().modulus_len(), (self.hf.bits_len() + 7) >> 3);
-        if k < cipher_text.len() || k < ((h_len << 1) + 2) {
-            return Err(CryptoError::new(CryptoErrorKind::InvalidPublicKey, "The public key modulus is too short"));
+        if k != cipher_text.len() || k < ((h_len << 1) + 2) {
+            return Err(CryptoError::new(CryptoErrorKind::InvalidPublicKey, "The cipher text length is not the modulus length"));
         }
         
         let c = BigInt::from_be_bytes(cipher_text);
-- 
2.43.0


From 12ba9e9cb72dae5d4c5286cdceb1bc683d577f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:15 +0000
Subject: [PATCH 16/43] fix: OAEP decryption requires the 0x01 separator

---
 src/rsa/oaep.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 79b965e..e2bd99d 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -143,16 +143,19 @@ impl<H, R> OAEPInner<H, R>
         }
         
         let (rest_bound, mut idx) = ((db_bound.0 + h_len, db_bound.1), db_bound.0 + h_len);
+        let mut is_found = false;
         for &x in (&em[(rest_bound.0)..(rest_bound.1)]).iter() {
             idx += 1;
             if x != 0x00 {
-                if x != 0x01 {
-                    return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid message encoding format"));
-                }
+                is_found = x == 0x01;
                 break;
             }
         }
         
+        if !is_found {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid message encoding format"));
+        }
+        
         msg.clear();
         msg.extend((&em[idx..]).iter());
         Ok(())
-- 
2.43.0


From 3084a1142ecb7157c01670d3d2287b83ed11afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:39 +0000
Subject: [PATCH 17/43] fix: PKCS#1 v1.5 signing with an unsupported hash
 reports an error

---
 src/rsa/pkcs1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 3b65033..cf2e9d8 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -236,7 +236,7 @@ impl<H, R> PKCS1Inner<H, R>
         } else if TypeId::of::<H>() == TypeId::of::<SHA512>() {
             Ok(vec![0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40])
         } else {
-            unreachable!(format!("not suuport {}", std::any::type_name::<H>()));
+            Err(CryptoError::new(CryptoErrorKind::NotSupportUsage, format!("{} is not currently supported", std::any::type_name::<H>())))
         }
     }
     
-- 
2.43.0


From da524e654be600a4b98fd4a66bc53d55cc4351de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:39 +0000
Subject: [PATCH 18/43] fix: PKCS#1 v1.5 verification rejects signatures of
 wrong length or not below the modulus

---
 src/rsa/pkcs1.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index cf2e9d8..2141efc 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -182,7 +182,14 @@ impl<H, R> PKCS1Inner<H, R>
             return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "The public key modulus length is too short"));
         }
         
+        if sign.len() != k {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid signature length"));
+        }
+        
         let c = BigInt::from_be_bytes(sign);
+        if &c >= self.kp.public_key().modulus() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid signature representative"));
+        }
         let m = self.kp.public_key().encrypt(&c);
         let mut em = m.to_be_bytes();
         let old_len = em.len();
-- 
2.43.0


From 371b6a87d9916400f2c9c82e07d02e55bbdc44e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:39 +0000
Subject: [PATCH 19/43] fix: PSS verification masks the unused leading bits

---
 src/rsa/pss.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 4a8b5c0..80e38dc 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -220,7 +220,8 @@ impl<H, R> PSS<H, R>
         let (db_start, db_end) = (0, em_len - h_len - 1);
         let (h_start, h_end) = (db_end, em_len - 1);
         
-        if (em[0] & (0xffu8 << (8 - ((em_len << 3) - em_bits)))) != 0 {
+        let mask = 0xffu8 >> ((em_len << 3) - em_bits);
+        if (em[0] & !mask) != 0 {
             return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid head tag"));
         }
         
@@ -228,7 +229,7 @@ impl<H, R> PSS<H, R>
         let h = &em[h_start..h_end];
         Self::mgf1_xor(db.as_mut_slice(), h, &mut self.hf);
         
-        db[0] &= 0xff >> ((em_len >> 3) - em_bits);
+        db[0] &= mask;
 
         for &e in db.iter().take(em_len - h_len - self.salt_len() - 2) {
             if e != 0x00 {
-- 
2.43.0


From 0287a74ded8453c349b6d45409936410a24dd698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:39 +0000
Subject: [PATCH 20/43] fix: PSS verification rejects signatures that are not
 below the modulus

---
 src/rsa/pss.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 80e38dc..95ac378 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -300,6 +300,9 @@ impl<H, R> PSS<H, R>
         }
         
         let s = BigInt::from_be_bytes(sign);
+        if &s >= self.kp.public_key().modulus() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid signature representative"));
+        }
         let m = self.kp.public_key().encrypt(&s);
         
         let em_bits = n_bits - 1;
-- 
2.43.0


From bca8ddea163631d5e219f0e178f17afba34ed203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:39 +0000
Subject: [PATCH 21/43] fix: PSS signing fails when the random source runs dry

---
 src/rsa/pss.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 95ac378..3d1d584 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -287,6 +287,9 @@ impl<H, R> PSS<H, R>
         self.rd.iter_mut().take((salt_len + 3) >> 2).for_each(|x| {
             x.to_be_bytes().iter().for_each(|&y| {salt.push(y);});
         });
+        if salt.len() < salt_len {
+            return Err(CryptoError::new(CryptoErrorKind::OuterErr, "The random source failed"));
+        }
         salt.truncate(salt_len);
         
         self.sign_with_salt(sign, m_hash, salt.as_slice())
-- 
2.43.0


From 070473b219085f5b892445fb58d4c818a5a5af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:39 +0000
Subject: [PATCH 22/43] fix: PSS automatic salt length for moduli of 8k+1 bits

---
 src/rsa/pss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 3d1d584..45476f4 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -59,7 +59,7 @@ impl<H, R> PSS<H, R>
                 if x > 0 {
                     x
                 } else {
-                    ((bits_len + 7) >> 3).saturating_sub(2 + h_len)
+                    ((bits_len.saturating_sub(1) + 7) >> 3).saturating_sub(2 + h_len)
                 }
             },
             None => {
-- 
2.43.0


From 389e216ac0169fa7653902aff6f0012276bef1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:27 +0000
Subject: [PATCH 23/43] fix: RSA private operation refuses an integer equal to
 the modulus

---
 src/rsa/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 5d56232..c408fa5 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -246,7 +246,7 @@ impl PrivateKey {
     /// RSADP: RSA decrypt primitive  
     /// if `rd` is some, then enabled RSA blinding
     pub fn decrypt<R: IterSource<u32>>(&self, c: &BigInt, rd: Option<&mut R>) -> Result<BigInt, CryptoError> {
-        if c > &self.pk.n {
+        if c >= &self.pk.n {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The cipher text integer is too big"));
         }
         
-- 
2.43.0


From b8b28fb97043a568955ac83b82933f369a062ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:27 +0000
Subject: [PATCH 24/43] fix: RSA blinding uses only values that are invertible
 modulo n

---
 src/rsa/rsa.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index c408fa5..b8971da 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -265,7 +265,8 @@ impl PrivateKey {
                 // which equals mr mod n. The factor of r can then be removed
                 // by multiplying by the multiplicative inverse of r.
                 let (r, ir) = loop {
-                    let r = self.pk.n.random(rnd);
+                    // the random number may carry leading zero words
+                    let r = BigInt::from_be_bytes(self.pk.n.random(rnd).to_be_bytes().as_slice());
                     
                     let r = if r == 0u32 {
                         BigInt::from(1u32)
@@ -274,7 +275,7 @@ impl PrivateKey {
                     };
                     
                     let mi = r.mod_inverse(self.pk.n.clone());
-                    if !mi.is_nan() {
+                    if !mi.is_nan() && (r.clone() * mi.clone()).rem_euclid(self.pk.n.clone()) == 1u32 {
                         break (r, Some(mi));
                     }
                 };
-- 
2.43.0


From 0b4c0932354984f36e580fab959f12c32605b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:27 +0000
Subject: [PATCH 25/43] fix: RSA private operation on 0 and 1 does not overflow

---
 src/rsa/rsa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index b8971da..ccf4494 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -290,7 +290,10 @@ impl PrivateKey {
             },
         };
         
-        let mut m = if self.precomputed.d_p.is_nan() {
+        let mut m = if c <= BigInt::from(1u32) {
+            // 0 and 1 are their own roots, the exponentiation does not handle them for every exponent
+            c.deep_clone()
+        } else if self.precomputed.d_p.is_nan() {
             // first private key representation
             c.exp(&self.d, &self.pk.n)
         } else {
-- 
2.43.0


From 0930af4a24d63037afba0d0123cde099b233ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:27 +0000
Subject: [PATCH 26/43] fix: RSA key generation requires all primes to be
 distinct

---
 src/rsa/rsa.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index ccf4494..48863ad 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -470,8 +470,7 @@ impl PrivateKey {
             }
 
             // Make sure that primes is pairwise unequal.
-            primes.dedup();
-            if primes.len() != n_primes {
+            if primes.iter().enumerate().any(|(i, prime)| primes[..i].contains(prime)) {
                 continue'next_set_of_primes;
             }
 
-- 
2.43.0


From 37024463a393fcd02214ad27a7a0c643593a0b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:27 +0000
Subject: [PATCH 27/43] fix: RSA key generation retries when the public
 exponent has no inverse

---
 src/rsa/rsa.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 48863ad..a3cd509 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -488,9 +488,9 @@ impl PrivateKey {
                 continue 'next_set_of_primes;
             }
 
-            let pri_exp = pub_exp.mod_inverse(totient);
+            let pri_exp = pub_exp.mod_inverse(totient.clone());
 
-            if !pri_exp.is_nan() {
+            if !pri_exp.is_nan() && (pri_exp.clone() * pub_exp.clone()).rem_euclid(totient) == bigone {
                 break (pri_exp, n);
             }
         };
-- 
2.43.0


From 5343b9ecf3f53466c223ad22bb976fdd8fea5b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:12 +0000
Subject: [PATCH 28/43] fix: RSA private operation with three or more primes
 returns the reduced integer

---
 src/rsa/rsa.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index a3cd509..efb1c94 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -325,6 +325,8 @@ impl PrivateKey {
                 m1 += m_i;
             }
             
+            // a coefficient that is a negative multiple of its prime was rounded up to the prime
+            m1.rem_euclid_assign(self.pk.n.clone());
             m1
         };
         
-- 
2.43.0


From 47d0c4bf6e6395c9ed39e59bd480c217360602e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:43 +0000
Subject: [PATCH 29/43] fix: P-256 field reduction does not overflow when a
 limb is zero

The reduction subtracts one from a limb and masks the result away when the
limb is zero. With overflow checks on, that subtraction panicked, so most
P-256 operations failed.
---
 src/elliptic/p256.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 1d66415..0fbae8b 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -421,14 +421,14 @@ impl CurveP256 {
             // At position 200, which is the starting bit position for word 7, we
             // have a factor of 0xf000000 = 2**28 - 2**24.
             tmp2[i+7] = tmp2[i+7].wrapping_add(0x10000000 & x_mask);
-            tmp2[i+8] = tmp2[i+8].wrapping_add((x - 1) & x_mask);
+            tmp2[i+8] = tmp2[i+8].wrapping_add(x.wrapping_sub(1) & x_mask);
             tmp2[i+7] = tmp2[i+7].wrapping_sub((x << 24) & BOTTOM_28BITS);
             tmp2[i+8] = tmp2[i+8].wrapping_sub(x >> 4);
 
             tmp2[i+8] = tmp2[i+8].wrapping_add(0x20000000 & x_mask);
             tmp2[i+8] = tmp2[i+8].wrapping_sub(x);
             tmp2[i+8] = tmp2[i+8].wrapping_add((x << 28) & BOTTOM_29BITS);
-            tmp2[i+9] = tmp2[i+9].wrapping_add(((x >> 1) - 1) & x_mask);
+            tmp2[i+9] = tmp2[i+9].wrapping_add((x >> 1).wrapping_sub(1) & x_mask);
 
             if (i + 1) == P256_LIMBS {
                 break;
@@ -449,13 +449,13 @@ impl CurveP256 {
             // 0x1e000000 = 2**29 - 2**25. Since we have not updated i, the 8th
             // word from i+1 is i+8.
             tmp2[i+8] = tmp2[i+8].wrapping_add(0x20000000 & x_mask);
-            tmp2[i+9] = tmp2[i+9].wrapping_add((x - 1) & x_mask);
+            tmp2[i+9] = tmp2[i+9].wrapping_add(x.wrapping_sub(1) & x_mask);
             tmp2[i+8] = tmp2[i+8].wrapping_sub((x << 25) & BOTTOM_29BITS);
             tmp2[i+9] = tmp2[i+9].wrapping_sub(x >> 4);
 
             tmp2[i+9] = tmp2[i+9].wrapping_add(0x10000000 & x_mask);
             tmp2[i+9] = tmp2[i+9].wrapping_sub(x);
-            tmp2[i+10] = tmp2[i+10].wrapping_add((x - 1) & x_mask);
+            tmp2[i+10] = tmp2[i+10].wrapping_add(x.wrapping_sub(1) & x_mask);
         }
 
         // We merge the right shift with a carry chain. The words above 2**257 have
-- 
2.43.0


From a7e5a057c2926d9f98d909872cb862ae049e3df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:43 +0000
Subject: [PATCH 30/43] fix: DSA verification uses the leftmost N bits of the
 hash

Signing already truncates the hash to the length of q (FIPS 186-4, 4.6).
Verification used the whole hash, so signatures made with a hash longer
than q were rejected.
---
 src/dsa/dsa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index b7bae9d..dc5ee15 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -331,7 +331,8 @@ impl<H, R> DSA<H, R>
         self.hf.write(msg);
         self.hf.checksum(&mut hm);
         
-        let mut z = BigInt::from_be_bytes(hm.as_slice());
+        let tmp = std::cmp::min(h_len, n >> 3);
+        let mut z = BigInt::from_be_bytes(&hm.as_slice()[..tmp]);
         z *= w.clone();
         let mut u1 = z;
         u1.rem_euclid_assign(dp.q.clone());
-- 
2.43.0


From 9f92f10565a4c5e878f588834bfeac4082346477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:07 +0000
Subject: [PATCH 31/43] fix: a truncated DSA or ECDSA signature is rejected
 instead of panicking

Splitting the content indexed past its end when bytes were lost in transit.
The missing component is now not a number, which verification rejects.
---
 src/dsa/signature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsa/signature.rs b/src/dsa/signature.rs
index 3124249..7247a90 100644
--- a/src/dsa/signature.rs
+++ b/src/dsa/signature.rs
@@ -37,8 +37,8 @@ impl SignatureContent {
     
     /// r, s
     pub fn to_bigint(&self) -> (BigInt, BigInt) {
-        (BigInt::from_be_bytes(&self.content.as_slice()[0..self.r_len]),
-        BigInt::from_be_bytes(&self.content.as_slice()[self.r_len..]))
+        let (r, s) = self.content.split_at(std::cmp::min(self.r_len, self.content.len()));
+        (BigInt::from_be_bytes(r), BigInt::from_be_bytes(s))
     }
     
     pub fn set(&mut self, r: BigInt, s: BigInt) {
-- 
2.43.0


From c8e6adca688e1c4e777caa5f4f4c94a0aa62b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:45 +0000
Subject: [PATCH 32/43] fix: ECDSA key generation fails when the random source
 runs dry

A source that stopped early gave a private key made of the few bytes
delivered so far, or no number at all.
---
 src/ecdsa/ecdsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdsa/ecdsa.rs b/src/ecdsa/ecdsa.rs
index 3924ba1..8499e7e 100644
--- a/src/ecdsa/ecdsa.rs
+++ b/src/ecdsa/ecdsa.rs
@@ -71,6 +71,9 @@ impl<H, R, C> ECDSA<H, R, C>
                 break;
             }
         }
+        if buf.len() < b {
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source does not deliver enough bytes"));
+        }
         buf.truncate(b);
         
         Ok(Self::rand_field_element_inner(params, buf.as_slice()))
-- 
2.43.0


From a9636bc6c4ec500c1f4a20dda2db12266cdd9736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:45 +0000
Subject: [PATCH 33/43] fix: elliptic curve key generation fails when the
 random source runs dry

A source that stopped early gave a short private key, and one that
delivered nothing made the generation panic.
---
 src/elliptic/elliptic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index 5074b4a..8409020 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -148,6 +148,9 @@ impl CurveParams {
                 priv_key.push(((x >> 8) & 0xff) as u8);
                 priv_key.push((x & 0xff) as u8);
             });
+            if priv_key.len() < b_len {
+                return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source does not deliver enough bytes"));
+            }
             priv_key.truncate(b_len);
 
             // We have to mask off any excess bits in the case that the size of the
-- 
2.43.0


From d783874094f5341c0c0e28c883495617a683b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:45 +0000
Subject: [PATCH 34/43] fix: a multiple of the point at infinity is the point
 at infinity

The scalar multiplication treated (0, 0), which stands for infinity, as an
ordinary affine point and returned a point that is not on the curve.
---
 src/elliptic/elliptic.rs | 2 +-
 src/elliptic/p224.rs     | 4 +++-
 src/elliptic/p256.rs     | 5 +++++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index 8409020..b1a46c1 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -180,7 +180,7 @@ impl CurveParams {
     }
 
     fn scalar_inner(&self, x: &BigInt, y: &BigInt, k: &[u8]) -> (BigInt, BigInt) {
-        let z = BigInt::from(1u32);
+        let z = Self::z_for_affine(x, y);
         let (mut bx, mut by, mut bz) = (BigInt::from(0u32), BigInt::from(0u32), BigInt::from(0u32));
         for &e in k.iter() {
             let mut byte = e;
diff --git a/src/elliptic/p224.rs b/src/elliptic/p224.rs
index 3c76566..5acac22 100644
--- a/src/elliptic/p224.rs
+++ b/src/elliptic/p224.rs
@@ -793,7 +793,9 @@ impl EllipticCurve for CurveP224 {
         );
         Self::p224_from_bigint(&mut a1, x);
         Self::p224_from_bigint(&mut b1, y);
-        c1[0] = 1;
+        if x.signnum() != Some(0) || y.signnum() != Some(0) {
+            c1[0] = 1;
+        }
         let scalar = k.to_be_bytes();
         Self::p224_scalar_mult(&mut a2, &mut b2, &mut c2, &a1, &b1, &c1, scalar.as_slice());
         Self::p224_to_affine(&mut a2, &mut b2, &mut c2)
diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 0fbae8b..f43bc9e 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -1203,6 +1203,11 @@ impl EllipticCurve for CurveP256 {
             return (BigInt::from_be_bytes(tmp.as_slice()), BigInt::from_be_bytes(tmp.as_slice()));
         }
 
+        // (0, 0) is the infinite point
+        if x.signnum() == Some(0) && y.signnum() == Some(0) {
+            return (BigInt::from(0u32), BigInt::from(0u32));
+        }
+
         let mut scalar_reversed = [0u8; 32];
         self.p256_get_scalar(&mut scalar_reversed, k);
 
-- 
2.43.0


From c787b68a66213cb0ce91e2df0a0d3bf276a9e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:01 +0000
Subject: [PATCH 35/43] fix: elliptic curve key generation never returns the
 private key 0

The candidate is drawn again when it is zero, like one that is too large.
---
 src/elliptic/elliptic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index b1a46c1..8fa5800 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -162,7 +162,7 @@ impl CurveParams {
 
             // If the scalar is out of range, sample another random number.
             let key = BigInt::from_be_bytes(priv_key.as_slice());
-            if key < self.n {
+            if key.signnum() == Some(1) && key < self.n {
                 let (qx, qy) = self.scalar_inner(&self.gx, &self.gy, priv_key.as_slice());
                 if !qx.is_nan() && !qy.is_nan() {
                     return Ok(
-- 
2.43.0


From 180f2374530468dd1b1377ca9de1ff78594b5064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:01 +0000
Subject: [PATCH 36/43] fix: DSA parameter generation fails when the random
 source runs dry

Too few bytes for a candidate of p made the generation panic.
---
 src/dsa/dsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index dc5ee15..d80f09d 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -81,6 +81,9 @@ impl<H, R> DSA<H, R>
                         break;
                     }
                 }
+                if p_bytes.len() < (l_len >> 3) {
+                    return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source does not deliver enough bytes"));
+                }
                 p_bytes.truncate(l_len >> 3);
                 p_bytes[(l_len >> 3) - 1] |= 1;
                 p_bytes[0] |= 0x80;
-- 
2.43.0


From 4d210bee7366d4a1cf879124b5ce3453c877ca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:07 +0000
Subject: [PATCH 37/43] fix: DSA key generation never returns the private key 0

A random integer keeps its leading zero words, so the comparison with zero
did not recognise it. It is now brought to its shortest form first.
---
 src/dsa/dsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index d80f09d..8425f53 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -130,7 +130,7 @@ impl<H, R> DSA<H, R>
     
     fn generate_key_inner(dp: DomainParameters, rd: &mut R) -> Result<PrivateKey, CryptoError> {
         let x = loop {
-            let x = dp.q.random(rd);
+            let x = BigInt::from_be_bytes(dp.q.random(rd).to_be_bytes().as_slice());
             if x != 0u32 && x < dp.q {
                 break x;
             }
-- 
2.43.0


From 1b59067646f7a06b6dca3961070beb624de0b03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:55:40 +0000
Subject: [PATCH 38/43] fix: P-521 reports its own name and its 521 bit field

The curve parameters of P-521 gave 512 bits and the name P-512. The size
sets how many random bytes go into keys and nonces, so eight bits of the
extra randomness were missing on this curve.
---
 src/elliptic/elliptic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index 8fa5800..5e77dfe 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -444,7 +444,7 @@ impl CurveParams {
         )
     }
 
-    /// FIPS 186-4, D.1.2.5 P-512 Curve  
+    /// FIPS 186-4, D.1.2.5 P-521 Curve  
     /// GF(p), E: $y^2 \equiv x^3 - 3\cdot x + b \mod p$
     /// p.bits_len() = 521
     pub fn p521() -> Result<CurveParams, CryptoError>{
@@ -458,8 +458,8 @@ impl CurveParams {
             .or_else(|e| {Err(CryptoError::new(CryptoErrorKind::InnerErr, e))})?;
         let gy = BigInt::from_str("0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650")
             .or_else(|e| {Err(CryptoError::new(CryptoErrorKind::InnerErr, e))})?;
-        let bit_size = 512;
-        let name = String::from("P-512");
+        let bit_size = 521;
+        let name = String::from("P-521");
 
         Ok(
             CurveParams {
-- 
2.43.0


From dae2cfdf43c682b2173cbe52c627e95a31fa4a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:41:14 +0000
Subject: [PATCH 39/43] fix: refuse RSA keys with too few primes of the
 requested length for any key size

The check that enough primes exist was made for keys below 64 bits only.
A larger key split into many short primes, such as 64 bits with nine
primes, was searched for without end.
---
 src/rsa/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index efb1c94..b52011e 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -420,7 +420,7 @@ impl PrivateKey {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "n_primes must be great or equal to 2"));
         }
         
-        if bits_len < 64 {
+        if bits_len / n_primes < 64 {
             let prime_limit= (1u64 << (bits_len / n_primes)) as f64;
             // pi approximates the number of primes less than primeLimit
             let mut pi = prime_limit / (prime_limit.ln() - 1f64);
-- 
2.43.0


From c1bf21e26059fd0566e89596587b369e31f246a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:46:31 +0000
Subject: [PATCH 40/43] fix: P-256 scalar multiplication of a point with x = 0

Shifting a zero integer left leaves it with superfluous words, and the
following reduction then gave a wrong number. Multiply by the Montgomery
factor instead.
---
 src/elliptic/p256.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index f43bc9e..2f4d1c1 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -1158,7 +1158,7 @@ impl CurveP256 {
     }
     
     fn p256_from_bigint(&self, out: &mut P256FEle, a: &BigInt) {
-        let mut tmp = a.clone() << 257;
+        let mut tmp = (BigInt::from(1u32) << 257) * a.clone();
         tmp.rem_euclid_assign(self.cp.field_order().clone());
         
         let mut i = 0;
-- 
2.43.0


From 7781c051ba162395558e7957f7e695fd8d903007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:46:31 +0000
Subject: [PATCH 41/43] fix: final reduction in the P-224 field

p - 1 was taken for a value not below p, and subtracting p from a value
whose lowest limb is zero left that limb negative. Points with such a
coordinate came out wrong.
---
 src/elliptic/p224.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/elliptic/p224.rs b/src/elliptic/p224.rs
index 5acac22..c5c8b81 100644
--- a/src/elliptic/p224.rs
+++ b/src/elliptic/p224.rs
@@ -458,7 +458,7 @@ impl CurveP224 {
         //    If it's = 0xffff000 and top4AllOnes != 0 and bottom3NonZero != 0,
         //      then the whole value is >= p
         //    If it's < 0xffff000, then the whole value is < p
-        let n = out[3].wrapping_sub( 0xffff000);
+        let n = 0xffff000u32.wrapping_sub(out[3]);
         let mut out3_equal = n;
         out3_equal |= out3_equal >> 16;
         out3_equal |= out3_equal >> 8;
@@ -467,8 +467,8 @@ impl CurveP224 {
         out3_equal |= out3_equal >> 1;
         out3_equal = !((((out3_equal << 31) as i32) >> 31) as u32);
 
-        // If out[3] > 0xffff000 then n's MSB will be zero.
-        let out3_gt = !(((n as i32) >> 31) as u32);
+        // If out[3] > 0xffff000 then n's MSB will be one.
+        let out3_gt = ((n as i32) >> 31) as u32;
 
         let mask = top4_all_ones & ((out3_equal & bottom3_non_zero) | out3_gt);
         out[0] = out[0].wrapping_sub(1 & mask);
@@ -477,6 +477,15 @@ impl CurveP224 {
         out[5] = out[5].wrapping_sub(0xfffffff & mask);
         out[6] = out[6].wrapping_sub(0xfffffff & mask);
         out[7] = out[7].wrapping_sub(0xfffffff & mask);
+
+        // Do one final carry down, in case we made out[0] negative. One of
+        // out[0..3] needs to be positive and able to absorb the -1 or the value
+        // would have been < p, and mask would have been 0.
+        (0..3).for_each(|i| {
+            let mask = ((out[i] as i32) >> 31) as u32;
+            out[i] = out[i].wrapping_add((1 << 28) & mask);
+            out[i+1] = out[i+1].wrapping_sub(1 & mask);
+        });
     }
     
     fn p224_copy_conditional(out: &mut P224FieldElement, a: &P224FieldElement, mut control: u32) {
-- 
2.43.0


From bae4e4a71f8c913677760f754c429e62946e67c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:46:31 +0000
Subject: [PATCH 42/43] fix: bit order of the input of the Keccak permutation

The input was read from its last byte and from the highest bit, while the
output and the sponge use the order of FIPS 202. Read it in that order.
---
 src/keccak/keccak.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/keccak/keccak.rs b/src/keccak/keccak.rs
index 682336c..edef7fb 100644
--- a/src/keccak/keccak.rs
+++ b/src/keccak/keccak.rs
@@ -34,9 +34,8 @@ impl KeccakStateArr {
             sheet.iter_mut().enumerate().for_each(|(y, lane)| {
                 lane.iter_mut().take(w).enumerate().for_each(|(z, e)| {
                     let idx = (w * ((KECCAK_Y_SIZE * y) + x)) + z;
-                    let (num, rom) = (idx >> 3, 7 - (idx & 7));
-                    let tmp = s[s.len() - num - 1];
-                    *e = (tmp >> rom) & 1;
+                    let (num, rom) = (idx >> 3, idx & 7);
+                    *e = (s[num] >> rom) & 1;
                 });
             });
         });
-- 
2.43.0


From 07b29b9ddad82e0c28936ac8133fbe343dc354b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:48:10 +0000
Subject: [PATCH 43/43] fix: Keccak-p with more rounds than the standard takes
 the round constants of negative indices modulo 255

---
 src/keccak/keccak.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keccak/keccak.rs b/src/keccak/keccak.rs
index edef7fb..27a6f79 100644
--- a/src/keccak/keccak.rs
+++ b/src/keccak/keccak.rs
@@ -285,7 +285,7 @@ impl Keccak {
     fn rc(t: i64) -> u8 {
         const MODULUS: usize = 255;
         let t = if t >= 0 {Self::minus_rem_euclid((t & 0xffffffff) as usize,0, MODULUS)}
-            else {Self::minus_rem_euclid(0, (t & 0xffffffff) as usize, MODULUS)};
+            else {Self::minus_rem_euclid(0, ((-t) & 0xffffffff) as usize, MODULUS)};
         
         if t == 0 {
             1
-- 
2.43.0

