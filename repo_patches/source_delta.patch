From 431e6ae78de2b73f229bf04b61333b6b329c98d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:11 +0000
Subject: [PATCH 01/33] fix: HMAC-SHA384 hashes only keys longer than its
 128-byte block

---
 anothertls/src/hash/hmac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/hash/hmac.rs b/anothertls/src/hash/hmac.rs
index a88ea8d..1304f07 100644
--- a/anothertls/src/hash/hmac.rs
+++ b/anothertls/src/hash/hmac.rs
@@ -38,7 +38,7 @@ impl<'a> Hmac<'a> {
 
         let hashed_key;
 
-        let key = if self.key.len() > 64 {
+        let key = if self.key.len() > size {
             hashed_key = match self.hash {
                 HashType::SHA256 => sha256(self.key),
                 HashType::SHA384 => sha384(self.key),
-- 
2.43.0


From ebad696b129ff20d443a429eca7a8e6817242c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:05 +0000
Subject: [PATCH 02/33] fix: ChaCha20 left the last full block unencrypted when
 the length is a multiple of 64

---
 anothertls/src/crypto/chacha20/cipher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/crypto/chacha20/cipher.rs b/anothertls/src/crypto/chacha20/cipher.rs
index 007c158..b35b705 100644
--- a/anothertls/src/crypto/chacha20/cipher.rs
+++ b/anothertls/src/crypto/chacha20/cipher.rs
@@ -91,13 +91,13 @@ impl ChaCha20 {
     pub fn encrypt(input: &[u8], key: &[u8], iv: &[u8], counter: usize) -> Option<Vec<u8>> {
         let mut output = input.to_vec();
         let chacha20 = ChaCha20Block::init(key, iv, 0);
-        let blocks_len = (input.len() as f32 / 64.0).ceil() as usize;
+        let blocks_len = (input.len() + 63) / 64;
         for j in 0..blocks_len {
             let mut current_block = chacha20.clone()?;
             current_block.set_counter((counter + j) as u32);
             let key_stream = current_block.get_block();
             let mut count = key_stream.len();
-            if (j * 64) + 64 >= input.len() {
+            if (j * 64) + 64 > input.len() {
                 count = input.len() % 64;
             }
             for i in 0..count {
-- 
2.43.0


From b0ae173265051a79e3fe56db51d196b8093c5758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 03/33] fix: Poly1305 counts its blocks in integers, not in
 24-bit floats

---
 anothertls/src/crypto/chacha20/poly1305.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/crypto/chacha20/poly1305.rs b/anothertls/src/crypto/chacha20/poly1305.rs
index 16bf986..9ad69ac 100644
--- a/anothertls/src/crypto/chacha20/poly1305.rs
+++ b/anothertls/src/crypto/chacha20/poly1305.rs
@@ -29,7 +29,7 @@ impl Poly1305 {
         let mut a = ibig!(0);
         let p = ibig!(_3fffffffffffffffffffffffffffffffb base 16);
 
-        for i in 1..=(msg.len() as f32 / 16.0).ceil() as usize {
+        for i in 1..=(msg.len() + 15) / 16 {
             let n = if i * 16 > msg.len() {
                 let mut buf = vec![];
                 buf.extend_from_slice(&msg[(i - 1) * 16..]);
-- 
2.43.0


From ace74003891d619079365366e4ef336406f6154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 04/33] fix: numbers with leading zero bytes keep them when
 encoded big-endian in 32 bytes

---
 anothertls/src/crypto/ellipticcurve/math.rs | 9 ++++++++-
 anothertls/src/utils/bytes.rs               | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/math.rs b/anothertls/src/crypto/ellipticcurve/math.rs
index 0a94613..6ce2c7a 100644
--- a/anothertls/src/crypto/ellipticcurve/math.rs
+++ b/anothertls/src/crypto/ellipticcurve/math.rs
@@ -99,7 +99,14 @@ pub fn multiply(p: &Point, n: IBig, curve: &Curve) -> Point {
     match curve.equation {
         Equation::Montgomery => {
             let a = bytes::ibig_to_32bytes(n, bytes::ByteOrder::Big);
-            let x = bytes::ibig_to_32bytes(p.x.clone(), bytes::ByteOrder::Big);
+            // A peer's point holds its 32 encoded bytes as a big-endian number,
+            // the base point is given as the number 9 itself.
+            let order = if *p == curve.g {
+                bytes::ByteOrder::Little
+            } else {
+                bytes::ByteOrder::Big
+            };
+            let x = bytes::ibig_to_32bytes(p.x.clone(), order);
             let res = curve25519::scalarmult(x, &a);
             Point {
                 x: bytes::to_ibig_be(&res),
diff --git a/anothertls/src/utils/bytes.rs b/anothertls/src/utils/bytes.rs
index 3a56cb9..bec721a 100644
--- a/anothertls/src/utils/bytes.rs
+++ b/anothertls/src/utils/bytes.rs
@@ -33,13 +33,20 @@ pub fn ibig_to_vec(num: IBig, order: ByteOrder) -> Vec<u8> {
     }
 }
 pub fn ibig_to_32bytes(num: IBig, order: ByteOrder) -> [u8; 32] {
+    let big_endian = order == ByteOrder::Big;
     let b = ibig_to_vec(num, order);
     let mut c = [0; 32];
+    // the leading zeros of a big-endian number belong to the left
+    let offset = if big_endian && b.len() < 32 {
+        32 - b.len()
+    } else {
+        0
+    };
     for (i, d) in b.iter().enumerate() {
         if i >= 32 {
             break;
         }
-        c[i] = *d;
+        c[offset + i] = *d;
     }
     c
 }
-- 
2.43.0


From a32ae2633deb80d52e9a75a1b39c6499ebe404a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 05/33] fix: the GCM counter of a nonce that is not 96 bits
 long wraps within its 32 bits

---
 anothertls/src/crypto/aes/gcm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/crypto/aes/gcm.rs b/anothertls/src/crypto/aes/gcm.rs
index 90ddb61..33bfc5c 100644
--- a/anothertls/src/crypto/aes/gcm.rs
+++ b/anothertls/src/crypto/aes/gcm.rs
@@ -90,7 +90,7 @@ impl Gcm {
             counter = (counter + 1) % 0x100000000; // 2^32
 
             let Yi = if (iv.len() * 8) != 96 {
-                Yi + counter
+                (Yi & !0xFFFFFFFF) | (Yi.wrapping_add(counter) & 0xFFFFFFFF)
             } else {
                 (Yi & !0xFFFFFFFF) | counter
             };
-- 
2.43.0


From 0b118266706f589dc49aed56892f231eea9ffaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:38 +0000
Subject: [PATCH 06/33] fix: a record whose length field exceeds the bytes
 present is an error, not a panic

---
 anothertls/src/net/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index a4c9736..63b3ed7 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -85,7 +85,7 @@ impl<'a> Record<'a> {
         let content_type = RecordType::new(buf[0])?;
         let version = ((buf[1] as u16) << 8) | buf[2] as u16;
         let len = (((buf[3] as u16) << 8) | buf[4] as u16) as usize;
-        if buf.len() < (2 + len) {
+        if buf.len() < (5 + len) {
             return Err(TlsError::DecodeError);
         }
         let consumed = 5 + len;
-- 
2.43.0


From 8729b49cd888d2afae7c2466922e636a23ddc635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 07/33] fix: a handshake message whose length field exceeds the
 bytes present is an error, not a panic

---
 anothertls/src/net/handshake/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anothertls/src/net/handshake/mod.rs b/anothertls/src/net/handshake/mod.rs
index a36218d..1347d88 100644
--- a/anothertls/src/net/handshake/mod.rs
+++ b/anothertls/src/net/handshake/mod.rs
@@ -63,6 +63,9 @@ impl<'a> Handshake<'a> {
         };
 
         let len = (((buf[1] as u32) << 16) | ((buf[2] as u32) << 8) | buf[3] as u32) as usize;
+        if buf.len() < (4 + len) {
+            return Err(TlsError::DecodeError);
+        }
         Ok(Handshake {
             handshake_type,
             fraqment: &buf[4..(len + 4)],
-- 
2.43.0


From c9fe2e8f413d3f6549638b3c4ca4cc91755c0d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 08/33] fix: protected records that are too short or only
 padding are errors

---
 anothertls/src/net/record.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 63b3ed7..2c38b87 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -205,6 +205,11 @@ impl RecordPayloadProtection {
             &mut self.handshake_keys
         };
 
+        // the inner content type and the authentication tag
+        if record.fraqment.len() < 17 {
+            return Err(TlsError::DecodeError);
+        }
+
         let ciphertext = &record.fraqment.as_ref()[..record.fraqment.len() - 16]; // 1 = Inner ContentType
         let ahead = &record.fraqment.as_ref()[ciphertext.len()..];
 
@@ -236,6 +241,11 @@ impl RecordPayloadProtection {
             }
         }
 
+        if content_type == RecordType::Invalid {
+            // Only padding, there is no content type
+            return Err(TlsError::UnexpectedMessage);
+        }
+
         Ok((content_type, plaintext[..record_len].to_vec()))
     }
 }
-- 
2.43.0


From 21f26f49a5e0f010d8cef3a26f7a29c10cb206c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 09/33] fix: a traffic key whose record counter is exhausted is
 refused instead of wrapping

---
 anothertls/src/net/key_schedule.rs | 11 +++++++----
 anothertls/src/net/record.rs       |  8 ++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index 8c5d5c7..41370da 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -48,7 +48,7 @@ impl Key {
             sequence_number: 0,
         })
     }
-    pub fn get_per_record_nonce(&mut self) -> Vec<u8> {
+    pub fn get_per_record_nonce(&mut self) -> Result<Vec<u8>, TlsError> {
         // 5.3.  Per-Record Nonce
         let mut out = self.iv.to_vec();
 
@@ -56,11 +56,14 @@ impl Key {
             out[(12 - 1) - i] ^= (self.sequence_number >> (i * 8)) as u8;
         }
 
-        // FIXME: Because the size of sequence numbers is 64-bit, they should not wrap. If a TLS
+        // Because the size of sequence numbers is 64-bit, they should not wrap. If a TLS
         // implementation would need to wrap a sequence number, it MUST either rekey (Section
         // 4.6.3) or terminate the connection.
-        self.sequence_number += 1;
-        out
+        self.sequence_number = match self.sequence_number.checked_add(1) {
+            Some(n) => n,
+            None => return Err(TlsError::InternalError),
+        };
+        Ok(out)
     }
 }
 
diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 2c38b87..5a9bcfe 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -183,9 +183,9 @@ impl RecordPayloadProtection {
         ];
 
         let (nonce, key) = if self.is_client {
-            (keys.client.get_per_record_nonce(), &keys.client.key)
+            (keys.client.get_per_record_nonce()?, &keys.client.key)
         } else {
-            (keys.server.get_per_record_nonce(), &keys.server.key)
+            (keys.server.get_per_record_nonce()?, &keys.server.key)
         };
 
         let (encrypted_record, ahead) =
@@ -214,9 +214,9 @@ impl RecordPayloadProtection {
         let ahead = &record.fraqment.as_ref()[ciphertext.len()..];
 
         let (nonce, key) = if self.is_client {
-            (keys.server.get_per_record_nonce(), &keys.server.key)
+            (keys.server.get_per_record_nonce()?, &keys.server.key)
         } else {
-            (keys.client.get_per_record_nonce(), &keys.client.key)
+            (keys.client.get_per_record_nonce()?, &keys.client.key)
         };
 
         let plaintext = match self
-- 
2.43.0


From 1eb547615b9866aec6d4facaf609ad299fca1449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:22 +0000
Subject: [PATCH 10/33] fix: records split or merged by the transport are read
 as they were written

---
 anothertls/src/net/client/connection.rs | 40 ++-------------
 anothertls/src/net/server/connection.rs | 13 ++---
 anothertls/src/net/stream.rs            | 68 ++++++++++++++++---------
 3 files changed, 52 insertions(+), 69 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 6109c45..36d3783 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -102,44 +102,10 @@ impl<'a> ClientHandshake<'a> {
         self.send_client_hello()?;
         log::debug!("<-- ClientHello");
 
-        let mut defragmented = Vec::with_capacity(2048);
-        let mut rxbuf = [0; 2048];
-
         while self.state != ClientHsState::Ready {
-            let n = self.stream.tcp_read(&mut rxbuf)?;
-
-            if n == 0 {
-                log::error!("Got empty tcp");
-                return Err(TlsError::BrokenPipe);
-            }
-
-            let mut offset = 0;
-
-            if !defragmented.is_empty() {
-                defragmented.extend_from_slice(&rxbuf[..n]);
-            }
-
-            while offset < n || !defragmented.is_empty() {
-                let record_buf = if defragmented.is_empty() {
-                    &rxbuf[offset..n]
-                } else {
-                    &defragmented[offset..]
-                };
-
-                if let Ok((consumed, record)) = Record::from_raw(record_buf) {
-                    self.handle_handshake_record(record)?;
-                    offset += consumed;
-                    if offset == defragmented.len() {
-                        defragmented.clear();
-                        break;
-                    }
-                } else {
-                    if defragmented.is_empty() {
-                        defragmented.extend_from_slice(&rxbuf[offset..n]);
-                    }
-                    break;
-                }
-            }
+            let raw = self.stream.read_record()?;
+            let (_consumed, record) = Record::from_raw(&raw)?;
+            self.handle_handshake_record(record)?;
 
             // send server handshake records to the client
             self.stream.flush()?;
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 119853c..d91c766 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -106,16 +106,11 @@ impl<'a> ServerHandshake<'a> {
     }
 
     fn do_handshake(&mut self) -> Result<(), TlsError> {
-        let mut rx_buf: [u8; 4096] = [0; 4096];
-
         while self.state != ServerHsState::Ready {
-            let n = self.stream.tcp_read(&mut rx_buf)?;
-            let mut consumed_total = 0;
-            while consumed_total < n {
-                let (consumed, record) = Record::from_raw(&rx_buf[consumed_total..n])?;
-                consumed_total += consumed;
-                self.handle_handshake_record(record)?;
-            }
+            let raw = self.stream.read_record()?;
+            let (_consumed, record) = Record::from_raw(&raw)?;
+            self.handle_handshake_record(record)?;
+
             // send server handshake records to the client
             self.stream.flush()?;
         }
diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 1e126f7..98c6a19 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -15,6 +15,10 @@ pub struct TlsStream {
     stream: TcpStream,
     pub protection: Option<RecordPayloadProtection>,
     buffer: Vec<u8>,
+    // Received bytes, which are not yet processed
+    rx_buffer: Vec<u8>,
+    // Decrypted application data, which did not fit in the buffer of the caller
+    plaintext: Vec<u8>,
 }
 
 impl TlsStream {
@@ -23,6 +27,8 @@ impl TlsStream {
             stream,
             protection: None,
             buffer: Vec::with_capacity(2048),
+            rx_buffer: Vec::with_capacity(2048),
+            plaintext: vec![],
         }
     }
 
@@ -74,6 +80,24 @@ impl TlsStream {
         }
     }
 
+    /// Read from the TCP socket until a whole TLS record is received. Bytes
+    /// after this record are kept for the next call.
+    pub fn read_record(&mut self) -> Result<Vec<u8>, TlsError> {
+        let mut rx_buf: [u8; 4096] = [0; 4096];
+
+        loop {
+            if self.rx_buffer.len() >= 5 {
+                let len = ((self.rx_buffer[3] as usize) << 8) | self.rx_buffer[4] as usize;
+                if self.rx_buffer.len() >= 5 + len {
+                    let rest = self.rx_buffer.split_off(5 + len);
+                    return Ok(std::mem::replace(&mut self.rx_buffer, rest));
+                }
+            }
+            let n = self.tcp_read(&mut rx_buf)?;
+            self.rx_buffer.extend_from_slice(&rx_buf[..n]);
+        }
+    }
+
     /// Write an TLS Alert message
     pub fn write_alert(&mut self, err: TlsError) -> Result<(), TlsError> {
         let data = vec![AlertLevel::get_from_error(err) as u8, err.as_u8()];
@@ -93,41 +117,39 @@ impl TlsStream {
         Ok(())
     }
 
-    /// Read from the TLS stream.
+    /// Read from the TLS stream. Data which does not fit in the buffer is
+    /// returned by the next call.
     pub fn tls_read<'b>(&'b mut self, buf: &'b mut [u8]) -> Result<usize, TlsError> {
-        let mut rx_buf: [u8; 4096] = [0; 4096];
-
-        let n = self.tcp_read(&mut rx_buf)?;
+        if buf.is_empty() {
+            return Ok(0);
+        }
 
-        let (_consumed, mut record) = Record::from_raw(&rx_buf[..n])?;
+        while self.plaintext.is_empty() {
+            let raw = self.read_record()?;
+            let (_consumed, record) = Record::from_raw(&raw)?;
 
-        log::debug!("--> EncryptedData");
+            log::debug!("--> EncryptedData");
 
-        if record.len != record.fraqment.len() {
-            // create internal buffer to store the decrypted TLS packages
-            todo!("Problem, when multiple TLS packages in one TCP package");
-        }
+            let (typ, data) = match self.protection.as_mut() {
+                Some(protection) if record.content_type == RecordType::ApplicationData => {
+                    protection.decrypt(record)?
+                }
+                _ => return Err(TlsError::UnexpectedMessage),
+            };
 
-        if let Some(protection) = self.protection.as_mut() {
-            let (typ, data) = protection.decrypt(record)?;
-            record = Record::new(typ, Value::Owned(data));
-            if record.content_type != RecordType::ApplicationData {
+            if typ != RecordType::ApplicationData {
                 log::error!("Not yet implemented: Handle handshake messages");
                 return Err(TlsError::UnexpectedMessage);
             }
-        } else if record.content_type != RecordType::Handshake {
-            return Err(TlsError::UnexpectedMessage);
-        }
-
-        if record.len > buf.len() {
-            todo!("Handle records bigger than the buf.len()");
+            self.plaintext = data;
         }
 
-        for (i, b) in record.fraqment.as_ref().iter().enumerate() {
-            buf[i] = *b;
+        let n = std::cmp::min(buf.len(), self.plaintext.len());
+        for (i, b) in self.plaintext.drain(..n).enumerate() {
+            buf[i] = b;
         }
 
-        Ok(record.fraqment.len())
+        Ok(n)
     }
 
     /// Write to the TLS stream.
-- 
2.43.0


From 4d425099c63f52c115d1e36edfd6d8f63a892806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:24 +0000
Subject: [PATCH 11/33] fix: content above 2^14 bytes is sent in several
 records instead of one with a wrong length

---
 anothertls/src/net/record.rs |  7 +++++++
 anothertls/src/net/stream.rs | 18 +++++++++++-------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 5a9bcfe..74ef6e5 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -10,6 +10,9 @@ use crate::net::key_schedule::KeySchedule;
 use crate::net::{alert::TlsError, key_schedule::WriteKeys};
 use std::sync::Arc;
 
+/// The length of the content of a record must not exceed 2^14 bytes
+pub const MAX_FRAQMENT_LEN: usize = 1 << 14;
+
 #[derive(PartialEq, Clone, Copy, Debug)]
 pub enum RecordType {
     Invalid = 0,
@@ -160,6 +163,10 @@ impl RecordPayloadProtection {
     }
 
     pub fn encrypt(&mut self, record: Record) -> Result<Vec<u8>, TlsError> {
+        if record.fraqment.len() > MAX_FRAQMENT_LEN {
+            return Err(TlsError::InternalError);
+        }
+
         let keys = if self.application_keys.is_none() {
             &mut self.handshake_keys
         } else {
diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 98c6a19..5e4e353 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -4,7 +4,9 @@
  */
 
 use crate::net::alert::{AlertLevel, TlsError};
-use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
+use crate::net::record::{
+    Record, RecordPayloadProtection, RecordType, Value, MAX_FRAQMENT_LEN,
+};
 use crate::utils::log;
 
 use core::result::Result;
@@ -160,13 +162,15 @@ impl TlsStream {
             return Err(TlsError::InternalError);
         }
 
-        let record = Record::new(RecordType::ApplicationData, Value::Ref(src));
-        let record = self.protection.as_mut().unwrap().encrypt(record)?;
+        for fraqment in src.chunks(MAX_FRAQMENT_LEN) {
+            let record = Record::new(RecordType::ApplicationData, Value::Ref(fraqment));
+            let record = self.protection.as_mut().unwrap().encrypt(record)?;
 
-        log::debug!("<-- EncryptedData");
-        if self.stream.write_all(&record).is_err() {
-            return Err(TlsError::BrokenPipe);
-        };
+            log::debug!("<-- EncryptedData");
+            if self.stream.write_all(&record).is_err() {
+                return Err(TlsError::BrokenPipe);
+            };
+        }
 
         Ok(())
     }
-- 
2.43.0


From 6567aa8dc1873b18133b5754af9bb7c8eab8caa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:26 +0000
Subject: [PATCH 12/33] fix: truncated hello messages and session ids of other
 lengths than 32 bytes do not panic

---
 anothertls/src/net/client/client_hello.rs | 21 +++++++++++++++++----
 anothertls/src/net/server/server_hello.rs | 16 ++++++++++++++--
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index ddb9232..acb7414 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -88,13 +88,20 @@ impl<'a> ClientHello<'a> {
         let mut legacy_session_id_echo = None;
 
         if session_id_length != 0 {
-            consumed += 32;
-            legacy_session_id_echo = Some(&buf[35..(35 + 32)]);
+            let len = session_id_length as usize;
+            if len > 32 || buf.len() < consumed + len {
+                return Err(TlsError::DecodeError);
+            }
+            legacy_session_id_echo = Some(&buf[consumed..(consumed + len)]);
+            consumed += len;
         }
 
         // Cipher Suites
+        if buf.len() < consumed + 2 {
+            return Err(TlsError::DecodeError);
+        }
         let cipher_suites_len = ((buf[consumed] as u16) << 8) | (buf[consumed + 1] as u16);
-        if cipher_suites_len % 2 != 0 || buf.len() < (consumed + cipher_suites_len as usize) {
+        if cipher_suites_len % 2 != 0 || buf.len() < (consumed + 2 + cipher_suites_len as usize) {
             return Err(TlsError::IllegalParameter);
         }
         consumed += 2;
@@ -112,11 +119,17 @@ impl<'a> ClientHello<'a> {
 
         // Compression Methode
         // TLS 1.3 no longer allows compression
-        consumed += 2;
+        if buf.len() <= consumed || buf.len() < consumed + 1 + buf[consumed] as usize + 2 {
+            return Err(TlsError::DecodeError);
+        }
+        consumed += 1 + buf[consumed] as usize;
 
         let extensions_len = ((buf[consumed] as usize) << 8) | (buf[consumed + 1] as usize);
         consumed += 2;
 
+        if buf.len() < consumed + extensions_len {
+            return Err(TlsError::DecodeError);
+        }
         let extensions =
             ClientExtension::from_client_hello(&buf[consumed..(consumed + extensions_len)])?;
 
diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index 581e7c4..a482d10 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -42,8 +42,17 @@ impl<'a> ServerHello<'a> {
         let mut legacy_session_id_echo = None;
 
         if session_id_length != 0 {
-            consumed += 32;
-            legacy_session_id_echo = Some(&buf[35..(35 + 32)]);
+            let len = session_id_length as usize;
+            if len > 32 || buf.len() < consumed + len {
+                return Err(TlsError::DecodeError);
+            }
+            legacy_session_id_echo = Some(&buf[consumed..(consumed + len)]);
+            consumed += len;
+        }
+
+        // CipherSuite + Compression Method + Length of the extensions
+        if buf.len() < consumed + 5 {
+            return Err(TlsError::DecodeError);
         }
 
         let cipher_suite =
@@ -54,6 +63,9 @@ impl<'a> ServerHello<'a> {
         let extensions_len = ((buf[consumed] as usize) << 8) | (buf[consumed + 1] as usize);
         consumed += 2;
 
+        if buf.len() < consumed + extensions_len {
+            return Err(TlsError::DecodeError);
+        }
         let extensions =
             ServerExtensions::from_server_hello(&buf[consumed..(consumed + extensions_len)])?;
 
-- 
2.43.0


From 2c6b68149e23a979acbc7566282b9f4a40db3231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 13/33] fix: truncated or mis-sized extensions are decode
 errors, not panics

---
 .../src/net/extensions/certificate_request.rs | 12 +++++--
 anothertls/src/net/extensions/client.rs       | 32 +++++++++++--------
 anothertls/src/net/extensions/key_share.rs    | 15 +++++++--
 anothertls/src/net/extensions/server.rs       | 26 ++++++++-------
 anothertls/src/net/extensions/server_name.rs  |  9 ++++++
 .../src/net/extensions/signature_algorithm.rs |  5 ++-
 .../src/net/extensions/supported_groups.rs    | 17 ++++++++--
 .../src/net/extensions/supported_versions.rs  |  6 ++++
 anothertls/src/net/stream.rs                  |  4 +--
 9 files changed, 89 insertions(+), 37 deletions(-)

diff --git a/anothertls/src/net/extensions/certificate_request.rs b/anothertls/src/net/extensions/certificate_request.rs
index 4d67eaa..6116559 100644
--- a/anothertls/src/net/extensions/certificate_request.rs
+++ b/anothertls/src/net/extensions/certificate_request.rs
@@ -29,12 +29,19 @@ impl CertificateRequestExtensions {
         extensions.set_is_client();
 
         while consumed < buf.len() {
+            if buf.len() < consumed + 4 {
+                return Err(TlsError::DecodeError);
+            }
             let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
             let extension_type = ExtensionType::new(extension_type);
             let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
             consumed += 4;
+            if buf.len() < consumed + size {
+                return Err(TlsError::DecodeError);
+            }
+            let body = &buf[consumed..consumed + size];
+            consumed += size;
             if extension_type.is_none() {
-                consumed += size;
                 continue;
             }
             let extension_type = extension_type.unwrap();
@@ -42,12 +49,11 @@ impl CertificateRequestExtensions {
             let extension = match extension_type {
                 ExtensionType::SignatureAlgorithms => {
                     CertificateRequestExtension::SignatureAlgorithms(
-                        SignatureAlgorithms::client_parse(&buf[consumed..])?,
+                        SignatureAlgorithms::client_parse(body)?,
                     )
                 }
                 _ => continue,
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/client.rs b/anothertls/src/net/extensions/client.rs
index f1362a5..e8bc678 100644
--- a/anothertls/src/net/extensions/client.rs
+++ b/anothertls/src/net/extensions/client.rs
@@ -38,32 +38,36 @@ impl ClientExtension {
         let mut extensions = ClientExtensions::new();
 
         while consumed < buf.len() {
+            if buf.len() < consumed + 4 {
+                return Err(TlsError::DecodeError);
+            }
             let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
             let extension_type = ExtensionType::new(extension_type);
             let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
             consumed += 4;
+            if buf.len() < consumed + size {
+                return Err(TlsError::DecodeError);
+            }
+            let body = &buf[consumed..consumed + size];
+            consumed += size;
             if extension_type.is_none() {
-                consumed += size;
                 continue;
             }
             let extension_type = extension_type.unwrap();
 
             let extension = match extension_type {
-                ExtensionType::ServerName => ClientExtension::ServerName(ServerName::server_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::KeyShare => ClientExtension::KeyShare(KeyShare::server_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::SupportedVersions => ClientExtension::SupportedVersion(
-                    SupportedVersions::server_parse(&buf[consumed..])?,
-                ),
-                ExtensionType::SignatureAlgorithms => ClientExtension::SignatureAlgorithms(
-                    SignatureAlgorithms::server_parse(&buf[consumed..])?,
-                ),
+                ExtensionType::ServerName => {
+                    ClientExtension::ServerName(ServerName::server_parse(body)?)
+                }
+                ExtensionType::KeyShare => ClientExtension::KeyShare(KeyShare::server_parse(body)?),
+                ExtensionType::SupportedVersions => {
+                    ClientExtension::SupportedVersion(SupportedVersions::server_parse(body)?)
+                }
+                ExtensionType::SignatureAlgorithms => {
+                    ClientExtension::SignatureAlgorithms(SignatureAlgorithms::server_parse(body)?)
+                }
                 ExtensionType::SupportedGroups => continue,
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/key_share.rs b/anothertls/src/net/extensions/key_share.rs
index b7ec5ab..ec7830b 100644
--- a/anothertls/src/net/extensions/key_share.rs
+++ b/anothertls/src/net/extensions/key_share.rs
@@ -20,17 +20,23 @@ impl KeyShareEntry {
         KeyShareEntry { group, opaque }
     }
     fn parse(buf: &[u8]) -> Result<(usize, KeyShareEntry), TlsError> {
+        if buf.len() < 4 {
+            return Err(TlsError::DecodeError);
+        }
         let group = bytes::to_u16(buf);
         let group = match NamedGroup::new(group) {
             Some(x) => x,
             None => return Err(TlsError::IllegalParameter),
         };
-        let public_key_len = bytes::to_u16(&buf[2..]);
+        let public_key_len = bytes::to_u16(&buf[2..]) as usize;
+        if buf.len() < 4 + public_key_len {
+            return Err(TlsError::DecodeError);
+        }
         Ok((
-            4 + public_key_len as usize,
+            4 + public_key_len,
             KeyShareEntry {
                 group,
-                opaque: (buf[4..(public_key_len + 4) as usize]).to_vec(),
+                opaque: (buf[4..(public_key_len + 4)]).to_vec(),
             },
         ))
     }
@@ -60,6 +66,9 @@ impl KeyShare {
         let mut len = 0;
         let mut consumed = 0;
         if !is_client {
+            if buf.len() < 2 {
+                return Err(TlsError::DecodeError);
+            }
             len = bytes::to_u16(buf) as usize;
             consumed += 2;
         }
diff --git a/anothertls/src/net/extensions/server.rs b/anothertls/src/net/extensions/server.rs
index dab9dca..c095ba5 100644
--- a/anothertls/src/net/extensions/server.rs
+++ b/anothertls/src/net/extensions/server.rs
@@ -36,29 +36,33 @@ impl ServerExtensions {
         extensions.set_is_client();
 
         while consumed < buf.len() {
+            if buf.len() < consumed + 4 {
+                return Err(TlsError::DecodeError);
+            }
             let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
             let extension_type = ExtensionType::new(extension_type);
             let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
             consumed += 4;
+            if buf.len() < consumed + size {
+                return Err(TlsError::DecodeError);
+            }
+            let body = &buf[consumed..consumed + size];
+            consumed += size;
             if extension_type.is_none() {
-                consumed += size;
                 continue;
             }
             let extension_type = extension_type.unwrap();
 
             let extension = match extension_type {
-                ExtensionType::KeyShare => ServerExtension::KeyShare(KeyShare::client_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::SupportedVersions => ServerExtension::SupportedVersions(
-                    SupportedVersions::client_parse(&buf[consumed..])?,
-                ),
-                ExtensionType::SignatureAlgorithms => ServerExtension::SignatureAlgorithms(
-                    SignatureAlgorithms::client_parse(&buf[consumed..])?,
-                ), // ExtensionType::SupportedGroups => continue, // TODO
+                ExtensionType::KeyShare => ServerExtension::KeyShare(KeyShare::client_parse(body)?),
+                ExtensionType::SupportedVersions => {
+                    ServerExtension::SupportedVersions(SupportedVersions::client_parse(body)?)
+                }
+                ExtensionType::SignatureAlgorithms => {
+                    ServerExtension::SignatureAlgorithms(SignatureAlgorithms::client_parse(body)?)
+                } // ExtensionType::SupportedGroups => continue, // TODO
                 _ => continue, // ExtensionType::PSKKeyExchangeMode => continue, // TODO
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/server_name.rs b/anothertls/src/net/extensions/server_name.rs
index 6b524aa..9fde51d 100644
--- a/anothertls/src/net/extensions/server_name.rs
+++ b/anothertls/src/net/extensions/server_name.rs
@@ -41,10 +41,16 @@ impl Extension for ServerName {
     where
         Self: Sized,
     {
+        if buf.len() < 2 {
+            return Err(TlsError::DecodeError);
+        }
         let server_name_list_len = bytes::to_u16(buf);
         let mut consumed = 2;
         let mut server_name = String::new();
         if server_name_list_len > 0 {
+            if buf.len() < consumed + 3 {
+                return Err(TlsError::DecodeError);
+            }
             let name_type = buf[consumed];
             consumed += 1;
             if name_type != 0 {
@@ -52,6 +58,9 @@ impl Extension for ServerName {
             }
             let server_name_len = bytes::to_u16(&buf[consumed..]) as usize;
             consumed += 2;
+            if buf.len() < consumed + server_name_len {
+                return Err(TlsError::DecodeError);
+            }
             server_name =
                 match String::from_utf8(buf[consumed..server_name_len + consumed].to_vec()) {
                     Ok(a) => a,
diff --git a/anothertls/src/net/extensions/signature_algorithm.rs b/anothertls/src/net/extensions/signature_algorithm.rs
index eb8a90d..27eb7c7 100644
--- a/anothertls/src/net/extensions/signature_algorithm.rs
+++ b/anothertls/src/net/extensions/signature_algorithm.rs
@@ -96,10 +96,13 @@ impl Extension for SignatureAlgorithms {
     where
         Self: Sized,
     {
+        if buf.len() < 2 || buf.len() < 2 + bytes::to_u16(buf) as usize {
+            return Err(TlsError::DecodeError);
+        }
         let len = bytes::to_u16(buf) as usize;
         let mut out = vec![];
         if len % 2 == 0 {
-            for i in (2..len).step_by(2) {
+            for i in (2..len + 2).step_by(2) {
                 let tes = bytes::to_u16(&buf[i..(i + 2)]);
                 out.push(SignatureScheme::new(tes)?);
             }
diff --git a/anothertls/src/net/extensions/supported_groups.rs b/anothertls/src/net/extensions/supported_groups.rs
index 55f7709..3d9254a 100644
--- a/anothertls/src/net/extensions/supported_groups.rs
+++ b/anothertls/src/net/extensions/supported_groups.rs
@@ -6,6 +6,7 @@
 use crate::net::alert::TlsError;
 use crate::net::extensions::shared::Extension;
 use crate::net::extensions::ExtensionType;
+use crate::utils::bytes;
 
 use super::NamedGroup;
 
@@ -38,10 +39,22 @@ impl Extension for SupportedGroups {
         out
     }
 
-    fn server_parse(_buf: &[u8]) -> Result<Self, TlsError>
+    fn server_parse(buf: &[u8]) -> Result<Self, TlsError>
     where
         Self: Sized,
     {
-        todo!("parse supported groups");
+        if buf.len() < 2 || buf.len() < 2 + bytes::to_u16(buf) as usize {
+            return Err(TlsError::DecodeError);
+        }
+        let len = bytes::to_u16(buf) as usize;
+        let mut groups = vec![];
+        if len % 2 == 0 {
+            for i in (2..len + 2).step_by(2) {
+                if let Some(group) = NamedGroup::new(bytes::to_u16(&buf[i..(i + 2)])) {
+                    groups.push(group);
+                }
+            }
+        }
+        Ok(SupportedGroups(groups))
     }
 }
diff --git a/anothertls/src/net/extensions/supported_versions.rs b/anothertls/src/net/extensions/supported_versions.rs
index 8ce7fd1..f8f5eae 100644
--- a/anothertls/src/net/extensions/supported_versions.rs
+++ b/anothertls/src/net/extensions/supported_versions.rs
@@ -34,6 +34,9 @@ impl Extension for SupportedVersions {
     where
         Self: Sized,
     {
+        if buf.is_empty() || buf.len() < 1 + buf[0] as usize {
+            return Err(TlsError::DecodeError);
+        }
         let len = buf[0] as usize;
         if len % 2 == 0 {
             for i in (1..len + 1).step_by(2) {
@@ -48,6 +51,9 @@ impl Extension for SupportedVersions {
     where
         Self: Sized,
     {
+        if buf.len() < 2 {
+            return Err(TlsError::DecodeError);
+        }
         if bytes::to_u16(&buf[0..2]) == 0x0304 {
             return Ok(SupportedVersions::new(true));
         }
diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 5e4e353..7b12591 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -4,9 +4,7 @@
  */
 
 use crate::net::alert::{AlertLevel, TlsError};
-use crate::net::record::{
-    Record, RecordPayloadProtection, RecordType, Value, MAX_FRAQMENT_LEN,
-};
+use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value, MAX_FRAQMENT_LEN};
 use crate::utils::log;
 
 use core::result::Result;
-- 
2.43.0


From 984c1ab4471a52c126f1b7f3c41e2f4f434f0be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 14/33] fix: a client's shares of other groups are skipped and
 its X25519 share is used

---
 anothertls/src/net/client/client_hello.rs | 9 ++++++---
 anothertls/src/net/server/server_hello.rs | 9 +++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index acb7414..079145b 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -8,7 +8,7 @@ use crate::{
     crypto::CipherSuite,
     net::{
         alert::TlsError,
-        extensions::{ClientExtension, ClientExtensions, KeyShareEntry},
+        extensions::{ClientExtension, ClientExtensions, KeyShareEntry, NamedGroup},
     },
     utils::log,
 };
@@ -144,8 +144,11 @@ impl<'a> ClientHello<'a> {
     pub fn get_public_key_share(&self) -> Option<&KeyShareEntry> {
         for ext in self.extensions.as_vec().iter() {
             if let ClientExtension::KeyShare(key_share) = ext {
-                if !key_share.0.is_empty() {
-                    return Some(&key_share.0[0]);
+                for key in key_share.0.iter() {
+                    // the only group the server supports
+                    if key.group == NamedGroup::X25519 {
+                        return Some(key);
+                    }
                 }
             }
         }
diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index a482d10..2eff970 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -117,6 +117,10 @@ impl<'a> ServerHello<'a> {
                     }
                 }
                 ClientExtension::KeyShare(key_share) => {
+                    if private_key.is_some() {
+                        // There must not be more than one extension of the same type
+                        return Err(TlsError::IllegalParameter);
+                    }
                     for key in key_share.0.iter() {
                         match key.group {
                             NamedGroup::X25519 => {
@@ -134,10 +138,7 @@ impl<'a> ServerHello<'a> {
                                 named_group = Some(NamedGroup::X25519);
                                 break;
                             }
-                            NamedGroup::Secp256r1 => {
-                                todo!("Add support for secp256 key exchange");
-                                // named_group = Some(NamedGroup::Secp256r1);
-                            }
+                            // TODO: Add support for secp256 key exchange
                             _ => {}
                         }
                     }
-- 
2.43.0


From 443ae13078d2404f65c844dfa7748dd93a9bb21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 15/33] fix: X25519 shares of another length than 32 bytes and
 all-zero shared secrets are refused

---
 anothertls/src/net/key_schedule.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index 41370da..1e58ad7 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -138,6 +138,10 @@ impl KeySchedule {
             return Err(TlsError::HandshakeFailure);
         }
 
+        if key_share_entry.opaque.len() != 32 {
+            return Err(TlsError::IllegalParameter);
+        }
+
         let client_public_key = bytes::to_ibig_be(&key_share_entry.opaque);
         let client_public_key = Point::new(client_public_key, ibig!(0));
 
@@ -147,6 +151,11 @@ impl KeySchedule {
         let shared_secret = math::multiply(&client_public_key, server_private_key, curve);
         let shared_secret = bytes::ibig_to_32bytes(shared_secret.x, bytes::ByteOrder::Big);
 
+        // 7.4.2. the computed shared secret must not be the all-zero value
+        if shared_secret.iter().all(|b| *b == 0) {
+            return Err(TlsError::IllegalParameter);
+        }
+
         match Self::do_key_schedule(tshash.get_type(), &tshash.finalize(), &shared_secret) {
             Some(keys) => Ok(keys),
             None => Err(TlsError::HandshakeFailure),
-- 
2.43.0


From 1f3e0f42bbc5295bf4027e99e0e8dec05b17b15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 16/33] fix: bad_record_mac is alert code 20 in both
 directions, not a close notification

---
 anothertls/src/net/alert.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index a190ec7..5f2adb2 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -49,6 +49,7 @@ impl TlsError {
         match code {
             0 => TlsError::CloseNotify,
             10 => TlsError::UnexpectedMessage,
+            20 => TlsError::BadRecordMac,
             40 => TlsError::HandshakeFailure,
             42 => TlsError::BadCertificate,
             43 => TlsError::UnsupportedCertificate,
@@ -78,6 +79,7 @@ impl TlsError {
         match self {
             TlsError::CloseNotify => 0,
             TlsError::UnexpectedMessage => 10,
+            TlsError::BadRecordMac => 20,
             TlsError::HandshakeFailure => 40,
             TlsError::BadCertificate => 42,
             TlsError::UnsupportedCertificate => 43,
@@ -96,8 +98,8 @@ impl TlsError {
             TlsError::UnrecognizedName => 112,
             TlsError::CertificateRequired => 116,
             TlsError::GotAlert(alert) => *alert,
+            TlsError::NotOfficial => 250,
             TlsError::BrokenPipe => 254,
-            _ => 0,
         }
     }
 }
-- 
2.43.0


From d9c39535f911ca7d03590b649e6e642eeeac8644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:10 +0000
Subject: [PATCH 17/33] fix: alert records of less than two bytes do not panic

---
 anothertls/src/net/client/connection.rs | 5 ++++-
 anothertls/src/net/server/connection.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 36d3783..820d9e9 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -181,6 +181,9 @@ impl<'a> ClientHandshake<'a> {
                 return Ok(());
             }
             RecordType::Alert => {
+                if record.fraqment.len() < 2 {
+                    return Err(TlsError::DecodeError);
+                }
                 let alert_code = record.fraqment.as_ref()[1];
                 let alert = TlsError::new(alert_code);
                 log::debug!("--> Alert {alert:?}");
@@ -265,7 +268,7 @@ impl<'a> ClientHandshake<'a> {
         let record = Record::new(content_type, crate::net::record::Value::Owned(content));
 
         if record.content_type != RecordType::Handshake {
-            if record.content_type == RecordType::Alert {
+            if record.content_type == RecordType::Alert && record.fraqment.len() >= 2 {
                 return Err(TlsError::GotAlert(record.fraqment.as_ref()[1]));
             }
             return Err(TlsError::UnexpectedMessage);
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index d91c766..c9a26aa 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -127,6 +127,9 @@ impl<'a> ServerHandshake<'a> {
                 return Ok(());
             }
             RecordType::Alert => {
+                if record.fraqment.len() < 2 {
+                    return Err(TlsError::DecodeError);
+                }
                 let alert_code = record.fraqment.as_ref()[1];
                 let alert = TlsError::new(alert_code);
                 log::debug!("--> Alert {alert:?}");
@@ -299,7 +302,7 @@ impl<'a> ServerHandshake<'a> {
         if record.content_type != RecordType::Handshake
             || (self.config.client_cert_ca.is_some() && self.certificate_request_context.is_none())
         {
-            if record.content_type == RecordType::Alert {
+            if record.content_type == RecordType::Alert && record.fraqment.len() >= 2 {
                 return Err(TlsError::GotAlert(record.fraqment.as_ref()[1]));
             }
             return Err(TlsError::UnexpectedMessage);
-- 
2.43.0


From e0e78482f5fb8f527b9bb002533f6f219d458c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:34 +0000
Subject: [PATCH 18/33] fix: truncated authentication messages and unsupported
 signature schemes end the handshake with an error

---
 anothertls/src/net/client/connection.rs | 17 ++++++++++++++++-
 anothertls/src/net/server/connection.rs | 15 ++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 820d9e9..3d77343 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -370,6 +370,10 @@ impl<'a> ClientHandshake<'a> {
 
         log::debug!("--> ServerCertificateVerify");
 
+        if handshake.fraqment.len() < 4 {
+            return Err(TlsError::DecodeError);
+        }
+
         let algo = SignatureScheme::new(bytes::to_u16(&handshake.fraqment[0..2]))?;
 
         let mut consumed = 4; // algo and len
@@ -394,7 +398,10 @@ impl<'a> ClientHandshake<'a> {
                     return Ok(());
                 }
             }
-            e => todo!("SignatureScheme {e:?} for server cert not implemented yet"),
+            e => {
+                log::error!("SignatureScheme {e:?} for server cert not implemented yet");
+                return Err(TlsError::IllegalParameter);
+            }
         }
 
         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
@@ -469,6 +476,10 @@ impl<'a> ClientHandshake<'a> {
     pub fn handle_certificate_request(&mut self) -> Result<(), TlsError> {
         let request = self.certificate_request.as_ref().unwrap();
 
+        if request.is_empty() || request.len() < 1 + request[0] as usize + 2 {
+            return Err(TlsError::DecodeError);
+        }
+
         let mut response: Vec<u8> = vec![request[0]];
         let context_len = request[0] as usize;
 
@@ -480,6 +491,10 @@ impl<'a> ClientHandshake<'a> {
 
         let ext_len = bytes::to_u16(&request[consumed..]) as usize;
         consumed += 2;
+
+        if request.len() < consumed + ext_len {
+            return Err(TlsError::DecodeError);
+        }
         let _extensions =
             CertificateRequestExtensions::from_request(&request[consumed..consumed + ext_len]);
 
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index c9a26aa..9350e47 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -339,6 +339,12 @@ impl<'a> ServerHandshake<'a> {
 
         log::debug!("--> ClientCertificate");
 
+        if handshake.fraqment.is_empty()
+            || handshake.fraqment.len() < 1 + handshake.fraqment[0] as usize
+        {
+            return Err(TlsError::DecodeError);
+        }
+
         let cert_request_context_len = handshake.fraqment[0] as usize;
         let cert_request_context = &handshake.fraqment[1..cert_request_context_len + 1];
 
@@ -392,6 +398,10 @@ impl<'a> ServerHandshake<'a> {
 
         log::debug!("--> ClientCertificateVerify");
 
+        if handshake.fraqment.len() < 4 {
+            return Err(TlsError::DecodeError);
+        }
+
         let algo = SignatureScheme::new(bytes::to_u16(&handshake.fraqment[0..2]))?;
 
         let mut consumed = 4; // algo and len
@@ -417,7 +427,10 @@ impl<'a> ServerHandshake<'a> {
                     return Ok(());
                 }
             }
-            e => todo!("SignatureScheme {e:?} for client cert not implemented yet"),
+            e => {
+                log::error!("SignatureScheme {e:?} for client cert not implemented yet");
+                return Err(TlsError::IllegalParameter);
+            }
         }
 
         let sign_len = bytes::to_u16(&handshake.fraqment[2..4]) as usize;
-- 
2.43.0


From 918adc2c18491e9bc2eeea3c6123f224ed45f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 19/33] fix: a repeated CertificateRequest and messages after
 the server's Finished are unexpected

---
 anothertls/src/net/client/connection.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 3d77343..c86340d 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -283,7 +283,9 @@ impl<'a> ClientHandshake<'a> {
             match self.state {
                 ClientHsState::EncryptedExtensions => self.handle_encrypted_extension(handshake)?,
                 ClientHsState::ServerCertificate | ClientHsState::ClientCertificateRequest => {
-                    if handshake.handshake_type == HandshakeType::CertificateRequest {
+                    if handshake.handshake_type == HandshakeType::CertificateRequest
+                        && self.certificate_request.is_none()
+                    {
                         log::debug!("--> CertificateRequest");
                         self.certificate_request = Some(handshake.fraqment.to_vec());
                         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
@@ -298,7 +300,7 @@ impl<'a> ClientHandshake<'a> {
                 ClientHsState::Finished | ClientHsState::FinishWithError(_) => {
                     self.handle_server_finish(handshake)?
                 }
-                _ => (),
+                _ => return Err(TlsError::UnexpectedMessage),
             }
         }
         Ok(())
-- 
2.43.0


From 6da163775f4c1cb103944c59201f9e6e5a1f5f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:13 +0000
Subject: [PATCH 20/33] fix: UTCTime accepts only real dates and counts the
 leap day of its own year

---
 anothertls/src/utils/x509.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index fca8476..505fb5b 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -44,11 +44,21 @@ pub struct UtcTime {
     pub second: u16,
 }
 
+fn is_leap_year(year: u16) -> bool {
+    year % 4 == 0 && (year % 100 != 0 || year % 400 == 0)
+}
+
 impl UtcTime {
     fn from_utc_timestamp(t: &str) -> Option<UtcTime> {
-        if t.len() < 12 {
+        let digits = t.as_bytes();
+        if digits.len() != 13 || digits[12] != b'Z' {
             return None;
         }
+        for digit in digits[..12].iter() {
+            if !digit.is_ascii_digit() {
+                return None;
+            }
+        }
         let (mut year, month, day, hour, minute, second) = (
             str_to_u16(&t[0..]),
             str_to_u16(&t[2..]),
@@ -62,6 +72,16 @@ impl UtcTime {
         } else {
             year += 1900;
         }
+        let days_in_month = match month {
+            1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
+            4 | 6 | 9 | 11 => 30,
+            2 if is_leap_year(year) => 29,
+            2 => 28,
+            _ => return None,
+        };
+        if day == 0 || day > days_in_month || hour > 23 || minute > 59 || second > 59 {
+            return None;
+        }
         Some(UtcTime {
             year,
             month,
@@ -75,11 +95,18 @@ impl UtcTime {
         let days_since_year_start = [0_u64, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
         let year = self.year as u64;
 
+        if year < 1970 {
+            return 0;
+        }
+
         let leap_years =
             ((year - 1) - 1968) / 4 - ((year - 1) - 1900) / 100 + ((year - 1) - 1600) / 400;
         let mut days = (year - 1970) * 365 + leap_years;
         days += days_since_year_start[(self.month - 1) as usize];
         days += (self.day - 1) as u64;
+        if self.month > 2 && is_leap_year(self.year) {
+            days += 1;
+        }
 
         let mut res = 0;
         res += days * 86400;
-- 
2.43.0


From a715acf0e330494a9db0a6eabca8a372098f5b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 21/33] fix: DER lengths beyond the bytes present are errors,
 not panics

---
 anothertls/src/utils/der.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/anothertls/src/utils/der.rs b/anothertls/src/utils/der.rs
index a1083f3..ef7c381 100644
--- a/anothertls/src/utils/der.rs
+++ b/anothertls/src/utils/der.rs
@@ -74,28 +74,38 @@ impl DerType {
 }
 
 pub fn der_parse(consumed: &mut usize, data: &[u8]) -> Result<(usize, EncodedForm), ParseError> {
+    if *consumed >= data.len() {
+        return Err(ParseError::DerParseLen);
+    }
     let der_type = match DerType::from_u8(data[*consumed]) {
         Some(a) => a,
         None => return Err(ParseError::DerParseType),
     };
     *consumed += 1;
-    let size = get_len(data, consumed);
-    if size > data.len() {
+    let size = get_len(data, consumed)?;
+    if size > data.len() - *consumed {
         return Err(ParseError::DerParseLen);
     }
     Ok((size, der_type))
 }
 
-fn get_len(len: &[u8], consumed: &mut usize) -> usize {
+fn get_len(len: &[u8], consumed: &mut usize) -> Result<usize, ParseError> {
     let size;
+    if *consumed >= len.len() {
+        return Err(ParseError::DerParseLen);
+    }
     if len[*consumed] >> 7 & 1 == 1 {
         let consume_len = len[*consumed] & 0x7F;
         *consumed += 1;
+        // the indefinite form is no DER, and no length needs more than eight bytes
+        if consume_len == 0 || consume_len > 8 || consume_len as usize > len.len() - *consumed {
+            return Err(ParseError::DerParseLen);
+        }
         size = bytes::to_u128_be_fill(&len[*consumed..*consumed + consume_len as usize]) as usize;
         *consumed += consume_len as usize;
     } else {
         size = len[*consumed] as usize;
         *consumed += 1;
     }
-    size
+    Ok(size)
 }
-- 
2.43.0


From 9b79d94a5c4f225b6dd07b4a79f63dcd23a02204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 22/33] fix: ECDSA signatures are read and written as DER
 SEQUENCEs of two non-negative minimal INTEGERs

---
 .../src/crypto/ellipticcurve/signature.rs     | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/signature.rs b/anothertls/src/crypto/ellipticcurve/signature.rs
index e903fc5..bd33c2b 100644
--- a/anothertls/src/crypto/ellipticcurve/signature.rs
+++ b/anothertls/src/crypto/ellipticcurve/signature.rs
@@ -17,6 +17,14 @@ pub struct Signature {
     // recovery_id: RecoveryId,
 }
 
+fn strip_leading_zeros(bytes: &[u8; 32]) -> &[u8] {
+    let mut start = 0;
+    while start < 31 && bytes[start] == 0 {
+        start += 1;
+    }
+    &bytes[start..]
+}
+
 impl Signature {
     pub fn new(s: IBig, r: IBig) -> Self {
         Self { s, r }
@@ -26,6 +34,7 @@ impl Signature {
         let mut r = None;
         let mut s = None;
         let mut consumed = 0;
+        let mut end = 0;
 
         for i in 0..3 {
             let (size, der_type) = match der::der_parse(&mut consumed, buf) {
@@ -40,7 +49,14 @@ impl Signature {
                 if der_type != EncodedForm::Constructed(DerType::Sequence) {
                     return Err(TlsError::BadCertificate);
                 }
+                end = consumed + size;
             } else {
+                if der_type != EncodedForm::Primitive(DerType::Integer)
+                    || size == 0
+                    || buf[consumed] >> 7 == 1
+                {
+                    return Err(TlsError::BadCertificate);
+                }
                 let int = bytes::to_ibig_be(&buf[consumed..consumed + size]);
                 consumed += size;
                 if r.is_none() {
@@ -51,7 +67,7 @@ impl Signature {
             }
         }
 
-        if s.is_none() {
+        if s.is_none() || consumed != end {
             return Err(TlsError::BadCertificate);
         }
 
@@ -63,6 +79,10 @@ impl Signature {
         let s = bytes::ibig_to_32bytes(self.s.clone(), bytes::ByteOrder::Big);
         let r = bytes::ibig_to_32bytes(self.r.clone(), bytes::ByteOrder::Big);
 
+        // an INTEGER is encoded in the fewest possible bytes
+        let s = strip_leading_zeros(&s);
+        let r = strip_leading_zeros(&r);
+
         let integer_type = 0x02;
         let sequence_type = 0x30;
 
@@ -74,7 +94,7 @@ impl Signature {
             *der.last_mut().unwrap() += 1;
             der.push(00);
         }
-        der.extend_from_slice(&r);
+        der.extend_from_slice(r);
 
         der.push(integer_type);
         der.push(s.len() as u8);
@@ -82,7 +102,7 @@ impl Signature {
             *der.last_mut().unwrap() += 1;
             der.push(00);
         }
-        der.extend_from_slice(&s);
+        der.extend_from_slice(s);
         let len = der.len() - 2;
         der[1] = len as u8;
         der
-- 
2.43.0


From 777f6f9f71e3abd73d9ab18763def74a0a5b715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 23/33] fix: truncated, nested or unsupported certificates are
 parse errors, not panics

---
 anothertls/src/utils/x509.rs | 51 ++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 505fb5b..5cbf4dd 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -221,7 +221,7 @@ impl SubjectPublicKeyInfoBuilder {
         }
     }
     fn build(self) -> Result<SubjectPublicKeyInfo, ParseError> {
-        if self.algorithm.is_none() {
+        if self.algorithm.is_none() || self.subject_public_key.is_none() {
             return Err(ParseError::SubjectPublicKeyInfo);
         }
         Ok(SubjectPublicKeyInfo {
@@ -384,7 +384,7 @@ impl X509 {
         let mut res = X509Builder::new();
         let mut consumed = 0;
         log::debug!("Start parsing X509 certificate");
-        parse(&mut res, ParsingState::Init, data, &mut consumed)?;
+        parse(&mut res, ParsingState::Init, data, &mut consumed, 0)?;
         res.build()
     }
     pub fn get_public_key(&self) -> Option<PublicKey> {
@@ -416,8 +416,9 @@ impl X509 {
             .subject_public_key
             .as_slice();
 
-        if pubkey[0] != 0x4 {
-            todo!("Handle compressed points");
+        // TODO: Handle compressed points
+        if pubkey.len() != 65 || pubkey[0] != 0x4 {
+            return None;
         }
 
         let x = bytes::to_ibig_be(&pubkey[1..33]);
@@ -444,6 +445,11 @@ impl X509Builder {
     fn build(self) -> Result<X509, ParseError> {
         let mut signature = None;
 
+        let signature_algorithm = match self.signature_algorithm {
+            Some(a) => a,
+            None => return Err(ParseError::Algorithms),
+        };
+
         if self.signature.0.is_some() && self.signature.1.is_some() {
             signature = Some(Signature::new(
                 self.signature.1.unwrap(),
@@ -454,7 +460,7 @@ impl X509Builder {
         Ok(X509 {
             tbs_certificate: self.tbs_certificate.build()?,
             tbs_certificate_size: self.tbs_certificate_size,
-            signature_algorithm: self.signature_algorithm.unwrap(),
+            signature_algorithm,
             signature,
         })
     }
@@ -486,12 +492,19 @@ impl Version {
         Err(ParseError::Version)
     }
 }
+// A certificate needs only a few levels
+const MAX_DEPTH: usize = 16;
+
 fn parse(
     res: &mut X509Builder,
     state: ParsingState,
     data: &[u8],
     consumed: &mut usize,
+    depth: usize,
 ) -> Result<(), ParseError> {
+    if depth > MAX_DEPTH {
+        return Err(ParseError::NotYetImplemented);
+    }
     let (size, der) = der_parse(consumed, data)?;
     let body = &data[*consumed..*consumed + size];
 
@@ -505,13 +518,14 @@ fn parse(
                 }
                 let size_should = size + *consumed;
                 while size_should > *consumed {
-                    parse(res, state.clone(), data, consumed)?;
+                    parse(res, state.clone(), data, consumed, depth + 1)?;
                 }
             }
             DerType::ContextSpecific(tag) => {
                 match tag {
                     0x00 => {
-                        res.tbs_certificate.version = Some(Version::parse(&body[2..])?);
+                        res.tbs_certificate.version =
+                            Some(Version::parse(body.get(2..).unwrap_or(&[]))?);
                     }
                     0x03 => log::fixme!("TODO: certificate extenstions"),
                     _ => (),
@@ -519,11 +533,12 @@ fn parse(
                 *consumed += size;
             }
             DerType::Set => {
-                parse(res, ParsingState::InSet, data, consumed)?;
+                parse(res, ParsingState::InSet, data, consumed, depth + 1)?;
                 // *consumed += size;
             }
             _ => {
-                todo!("cons={cons:?}");
+                log::error!("not yet implemented: cons={cons:?}");
+                return Err(ParseError::NotYetImplemented);
             }
         },
         EncodedForm::Primitive(prim) => match prim {
@@ -580,7 +595,7 @@ fn parse(
                     }
                     *consumed += size;
                 }
-                _ => todo!("ObjectIdentifier {state:?}"),
+                _ => return Err(ParseError::NotYetImplemented),
             },
             DerType::PrintableString | DerType::UTF8String => {
                 let string = match String::from_utf8(body.to_vec()) {
@@ -594,10 +609,6 @@ fn parse(
                 }
                 *consumed += size;
             }
-            DerType::OctetString => {
-                *consumed += size;
-                todo!("GOT OctetString");
-            }
             DerType::UTCTime => {
                 let timestamp = match String::from_utf8(body.to_vec()) {
                     Ok(e) => e,
@@ -615,16 +626,19 @@ fn parse(
                 *consumed += size;
             }
             DerType::BitString => {
-                if data[*consumed + 1] == 0x30 {
+                if body.is_empty() {
+                    return Err(ParseError::DerParseLen);
+                }
+                if body.len() > 1 && body[1] == 0x30 {
                     *consumed += 1;
                     let size_should = size + *consumed - 1;
                     while size_should > *consumed {
-                        parse(res, ParsingState::InBitString, data, consumed)?;
+                        parse(res, ParsingState::InBitString, data, consumed, depth + 1)?;
                     }
                 } else {
                     let number_of_unused_bits = data[*consumed];
                     if number_of_unused_bits != 0 {
-                        todo!("Number of unused bits is not 0");
+                        return Err(ParseError::NotYetImplemented);
                     }
 
                     if res
@@ -640,9 +654,6 @@ fn parse(
                     *consumed += size;
                 }
             }
-            DerType::Null => {
-                todo!("Null");
-            }
             _ => {
                 log::error!("not yet implemented: prim={prim:?}");
                 return Err(ParseError::NotYetImplemented);
-- 
2.43.0


From ec8796bcf78b4a7c4b6e370fb077e420dc5e3bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:03 +0000
Subject: [PATCH 24/33] fix: a certificate's signature is checked over exactly
 its tbs_certificate, with the algorithm it names

---
 anothertls/src/net/handshake/certificate.rs | 25 +++++++++++------
 anothertls/src/utils/x509.rs                | 31 +++++++++++++++++++--
 2 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 0b2c8e3..0309001 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -10,7 +10,11 @@ use crate::{
         alert::TlsError,
         extensions::{ServerExtension, ServerExtensions, SignatureAlgorithms, SignatureScheme},
     },
-    utils::{bytes, log, pem::get_pem_content_from_file, x509::X509},
+    utils::{
+        bytes, log,
+        pem::get_pem_content_from_file,
+        x509::{Algorithms, X509},
+    },
 };
 
 pub struct Certificate {
@@ -175,12 +179,10 @@ impl Certificate {
             return Err(TlsError::InternalError);
         }
 
-        let ca_public_key = self
-            .x509
-            .as_ref()
-            .unwrap()
-            .get_public_key()
-            .expect("CA for client certificate has no public key");
+        let ca_public_key = match self.x509.as_ref().unwrap().get_public_key() {
+            Some(e) => e,
+            None => return Err(TlsError::UnsupportedCertificate),
+        };
 
         let other_x509 = other.x509.as_ref().unwrap();
         let signature = match &other_x509.signature {
@@ -188,7 +190,14 @@ impl Certificate {
             None => return Err(TlsError::DecryptError),
         };
 
-        let context = &other.raw[4..4 + other_x509.tbs_certificate_size];
+        if other_x509.signature_algorithm != Algorithms::EcdsaWithSha256 {
+            return Err(TlsError::UnsupportedCertificate);
+        }
+
+        let context = match &other_x509.tbs_certificate.raw_data {
+            Some(e) => e,
+            None => return Err(TlsError::InternalError),
+        };
 
         let hash = sha256(context);
 
diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 5cbf4dd..90b68db 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -349,6 +349,17 @@ impl TBSCertificateBuilder {
             raw_data: None,
         }
     }
+    fn is_complete(&self) -> bool {
+        self.serial_number.is_some()
+            && self.signature.is_some()
+            && self.validity.not_before.is_some()
+            && self.validity.not_after.is_some()
+            && self.subject_public_key_info.subject_public_key.is_some()
+            && match self.subject_public_key_info.algorithm.as_ref() {
+                Some(a) => a.parameters.is_some(),
+                None => false,
+            }
+    }
     pub fn build(self) -> Result<TBSCertificate, ParseError> {
         if self.serial_number.is_none() || self.signature.is_none() {
             return Err(ParseError::TBSBuilder);
@@ -505,21 +516,37 @@ fn parse(
     if depth > MAX_DEPTH {
         return Err(ParseError::NotYetImplemented);
     }
+    let start = *consumed;
     let (size, der) = der_parse(consumed, data)?;
     let body = &data[*consumed..*consumed + size];
 
+    if res.tbs_certificate_size < 2 && der != EncodedForm::Constructed(DerType::Sequence) {
+        // A certificate is a sequence, and it starts with the sequence of the tbs_certificate
+        return Err(ParseError::TBSBuilder);
+    }
+
     match der {
         EncodedForm::Constructed(cons) => match cons {
             DerType::Sequence => {
+                let is_tbs_certificate = res.tbs_certificate_size == 1;
                 if res.tbs_certificate_size == 0 {
                     res.tbs_certificate_size = 1; // Size of tbs_certificate + signature_algorithm + signature
-                } else if res.tbs_certificate_size == 1 {
-                    res.tbs_certificate_size = size + 4;
+                } else if is_tbs_certificate {
+                    // The signature is calculated over the header and the content
+                    res.tbs_certificate_size = *consumed + size - start;
+                    res.tbs_certificate.raw_data = Some(data[start..*consumed + size].to_vec());
                 }
                 let size_should = size + *consumed;
                 while size_should > *consumed {
                     parse(res, state.clone(), data, consumed, depth + 1)?;
                 }
+                if size_should != *consumed {
+                    return Err(ParseError::DerParseLen);
+                }
+                if is_tbs_certificate && !res.tbs_certificate.is_complete() {
+                    // What follows is not signed, so nothing may be missing
+                    return Err(ParseError::TBSBuilder);
+                }
             }
             DerType::ContextSpecific(tag) => {
                 match tag {
-- 
2.43.0


From 1c3030e30d87c6cced69deebf5e7686d100f4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:31 +0000
Subject: [PATCH 25/33] fix: a truncated certificate message is a decode error,
 not a panic

---
 anothertls/src/net/handshake/certificate.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 0309001..81f9b7d 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -55,10 +55,16 @@ impl Certificate {
 
     pub fn from_hello(buf: &[u8]) -> Result<Vec<Certificate>, TlsError> {
         let mut consumed = 1;
+        if buf.is_empty() {
+            return Err(TlsError::DecodeError);
+        }
         let cert_request_context_len = buf[0] as usize;
 
         consumed += cert_request_context_len;
 
+        if buf.len() < consumed + 3 {
+            return Err(TlsError::DecodeError);
+        }
         let certs_len = bytes::to_u128_be_fill(&buf[consumed..consumed + 3]) as usize;
         consumed += 3;
 
@@ -73,8 +79,14 @@ impl Certificate {
 
         #[allow(clippy::never_loop)]
         while certs_len > (consumed - prev_len) {
+            if buf.len() < consumed + 3 {
+                return Err(TlsError::DecodeError);
+            }
             let cert_len = bytes::to_u128_be_fill(&buf[consumed..consumed + 3]) as usize;
             consumed += 3;
+            if buf.len() < consumed + cert_len + 2 {
+                return Err(TlsError::DecodeError);
+            }
             let cert = Certificate::from_raw_x509(buf[consumed..consumed + cert_len].to_vec())?;
             consumed += cert_len;
             let cert_ext_len = bytes::to_u16(&buf[consumed..consumed + 2]);
-- 
2.43.0


From ec903ae8b37fe3a3e3b7daa2cb08028318be235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:33 +0000
Subject: [PATCH 26/33] fix: malformed base64 and PEM are refused, not decoded
 to other bytes or a panic

---
 anothertls/src/crypto/ellipticcurve/privatekey.rs | 2 +-
 anothertls/src/utils/base64.rs                    | 7 +++++++
 anothertls/src/utils/pem.rs                       | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/privatekey.rs b/anothertls/src/crypto/ellipticcurve/privatekey.rs
index d2fe4ff..ed2681b 100644
--- a/anothertls/src/crypto/ellipticcurve/privatekey.rs
+++ b/anothertls/src/crypto/ellipticcurve/privatekey.rs
@@ -19,7 +19,7 @@ impl PrivateKey {
     pub fn from_pem(filepath: String) -> Option<PrivateKey> {
         let raw = get_pem_content_from_file(filepath)?;
         let secret = raw.get("EC PRIVATE KEY")?;
-        let secret = bytes::to_ibig_be(&secret[7..39]);
+        let secret = bytes::to_ibig_be(secret.get(7..39)?);
         // FIXME: PARSE ASN1 OID
         Some(PrivateKey {
             curve: Curve::secp256r1(),
diff --git a/anothertls/src/utils/base64.rs b/anothertls/src/utils/base64.rs
index f20426a..6079e15 100644
--- a/anothertls/src/utils/base64.rs
+++ b/anothertls/src/utils/base64.rs
@@ -72,9 +72,16 @@ pub fn decode(input: &str) -> Option<Vec<u8>> {
                 .next()
                 .unwrap_or(if idx <= 2 { '=' } else { '\0' });
             if ch == '=' {
+                // padding is only allowed at the end
+                if consumed < len || idx <= 2 {
+                    return None;
+                }
                 *t = 0;
                 padding_len += 1;
             } else {
+                if padding_len > 0 || !CHARS.contains(ch) {
+                    return None;
+                }
                 *t = reverse_characters[ch as usize];
             }
         }
diff --git a/anothertls/src/utils/pem.rs b/anothertls/src/utils/pem.rs
index dc00b21..b8bc6eb 100644
--- a/anothertls/src/utils/pem.rs
+++ b/anothertls/src/utils/pem.rs
@@ -37,7 +37,7 @@ pub fn get_pem_content_from_file(filepath: String) -> Option<HashMap<String, Vec
             }
             PemState::End | PemState::Start => {
                 if line.starts_with("-----BEGIN") {
-                    current_title = line[11..(line.len() - 5)].to_string();
+                    current_title = line.get(11..(line.len() - 5))?.to_string();
                     state = PemState::InContent;
                 }
             }
-- 
2.43.0


From 4ecc0d8747ba864640f96316c510de7e010e7599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 27/33] fix: the random generators return as many bytes as were
 asked for

---
 anothertls/src/rand/simplerng.rs | 5 +++--
 anothertls/src/rand/urandom.rs   | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/anothertls/src/rand/simplerng.rs b/anothertls/src/rand/simplerng.rs
index aaf7624..833393b 100644
--- a/anothertls/src/rand/simplerng.rs
+++ b/anothertls/src/rand/simplerng.rs
@@ -32,7 +32,7 @@ impl RngCore<u32> for SimpleRng<u32> {
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
         let mut res = vec![];
-        while res.len() >= size {
+        while res.len() < size {
             res.push(self.next() as u8)
         }
         res
@@ -61,12 +61,13 @@ impl RngCore<IBig> for SimpleRng<IBig> {
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
         let mut res = vec![];
-        while res.len() >= size {
+        while res.len() < size {
             res.extend_from_slice(&bytes::ibig_to_32bytes(
                 self.next(),
                 bytes::ByteOrder::Little,
             ));
         }
+        res.truncate(size);
         res
     }
 }
diff --git a/anothertls/src/rand/urandom.rs b/anothertls/src/rand/urandom.rs
index a2c14b3..c5297ae 100644
--- a/anothertls/src/rand/urandom.rs
+++ b/anothertls/src/rand/urandom.rs
@@ -48,7 +48,11 @@ impl RngCore<IBig> for URandomRng {
         self.next() % (max - min.clone()) + min
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
-        let rand_bytes = self.read_from_urandom();
-        rand_bytes[..size].to_owned()
+        let mut res = vec![];
+        while res.len() < size {
+            res.extend_from_slice(&self.read_from_urandom());
+        }
+        res.truncate(size);
+        res
     }
 }
-- 
2.43.0


From 0675030db6dce6fff34e367a21087dc61964aa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:38 +0000
Subject: [PATCH 28/33] fix: ECDSA uses the leftmost bits of digests longer
 than the curve's order

---
 anothertls/src/crypto/ellipticcurve/ecdsa.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/ecdsa.rs b/anothertls/src/crypto/ellipticcurve/ecdsa.rs
index 3b2a95e..dc719fd 100644
--- a/anothertls/src/crypto/ellipticcurve/ecdsa.rs
+++ b/anothertls/src/crypto/ellipticcurve/ecdsa.rs
@@ -8,7 +8,16 @@ use ibig::{ibig, IBig};
 
 use crate::rand::{RngCore, SeedableRng, SimpleRng, URandomRng};
 
-use super::{math, Point, PrivateKey, PublicKey, Signature};
+use super::{curve::Curve, math, Point, PrivateKey, PublicKey, Signature};
+
+/// The leftmost bits of the hash, as many as the order of the curve has
+fn leftmost_bits(hashed_message: &[u8], curve: &Curve) -> IBig {
+    let n_len = bytes::ibig_to_vec(curve.n.clone(), bytes::ByteOrder::Big).len();
+    if hashed_message.len() > n_len {
+        return bytes::to_ibig_be(&hashed_message[..n_len]);
+    }
+    bytes::to_ibig_be(hashed_message)
+}
 
 pub struct Ecdsa {
     rng: Box<dyn RngCore<IBig>>,
@@ -33,7 +42,7 @@ impl Ecdsa {
         privkey: &PrivateKey,
         hashed_message: &[u8],
     ) -> Result<Signature, String> {
-        let msg = bytes::to_ibig_be(hashed_message);
+        let msg = leftmost_bits(hashed_message, &privkey.curve);
         let curve = privkey.curve.clone();
         let d = privkey.secret.clone();
 
@@ -92,7 +101,7 @@ impl Ecdsa {
             return false;
         }
 
-        let z = bytes::to_ibig_be(hashed_message);
+        let z = leftmost_bits(hashed_message, &pub_key.curve);
         let curve = pub_key.curve;
 
         let s_inv = math::inv(&sign.s, &curve.n);
-- 
2.43.0


From 103d3a392418bec4b5df56c50e18983271a1174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:07 +0000
Subject: [PATCH 29/33] fix: X.509 signature fields are only taken from behind
 the signed part

---
 anothertls/src/utils/x509.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 90b68db..0c9557c 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -547,6 +547,11 @@ fn parse(
                     // What follows is not signed, so nothing may be missing
                     return Err(ParseError::TBSBuilder);
                 }
+                if is_tbs_certificate {
+                    // The signature and its algorithm stand behind the signed part
+                    res.signature_algorithm = None;
+                    res.signature = (None, None);
+                }
             }
             DerType::ContextSpecific(tag) => {
                 match tag {
-- 
2.43.0


From d2dd44de3a7fee98de837c9fa49df8dcac89acf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:08 +0000
Subject: [PATCH 30/33] fix: DER tags of the application and private class are
 no universal types

---
 anothertls/src/utils/der.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anothertls/src/utils/der.rs b/anothertls/src/utils/der.rs
index ef7c381..ca07fbd 100644
--- a/anothertls/src/utils/der.rs
+++ b/anothertls/src/utils/der.rs
@@ -39,6 +39,9 @@ impl DerType {
         let der_type = if (tag >> 6 & 0x3) == 0x2 {
             // Context-specific
             DerType::ContextSpecific(tag & 0xf)
+        } else if tag >> 6 != 0 {
+            // Application and private tags are no universal types
+            return None;
         } else {
             match content {
                 0x02 => DerType::Integer,
-- 
2.43.0


From 8f5e3a1b146e0b2618ed7d73ac93d05ea2266144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:52 +0000
Subject: [PATCH 31/33] fix: what follows the signed part of a certificate
 cannot fill its fields

---
 anothertls/src/utils/x509.rs | 44 +++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 0c9557c..841a150 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -442,7 +442,8 @@ pub struct X509Builder {
     tbs_certificate: TBSCertificateBuilder,
     tbs_certificate_size: usize,
     signature_algorithm: Option<Algorithms>,
-    signature: (Option<IBig>, Option<IBig>),
+    signature: Option<Signature>,
+    signed_part_parsed: bool,
 }
 impl X509Builder {
     fn new() -> X509Builder {
@@ -450,29 +451,21 @@ impl X509Builder {
             tbs_certificate: TBSCertificateBuilder::new(),
             tbs_certificate_size: 0,
             signature_algorithm: None,
-            signature: (None, None),
+            signature: None,
+            signed_part_parsed: false,
         }
     }
     fn build(self) -> Result<X509, ParseError> {
-        let mut signature = None;
-
         let signature_algorithm = match self.signature_algorithm {
             Some(a) => a,
             None => return Err(ParseError::Algorithms),
         };
 
-        if self.signature.0.is_some() && self.signature.1.is_some() {
-            signature = Some(Signature::new(
-                self.signature.1.unwrap(),
-                self.signature.0.unwrap(),
-            ));
-        }
-
         Ok(X509 {
             tbs_certificate: self.tbs_certificate.build()?,
             tbs_certificate_size: self.tbs_certificate_size,
             signature_algorithm,
-            signature,
+            signature: self.signature,
         })
     }
 }
@@ -524,6 +517,14 @@ fn parse(
         // A certificate is a sequence, and it starts with the sequence of the tbs_certificate
         return Err(ParseError::TBSBuilder);
     }
+    if res.signed_part_parsed
+        && der != EncodedForm::Constructed(DerType::Sequence)
+        && der != EncodedForm::Primitive(DerType::ObjectIdentifier)
+        && der != EncodedForm::Primitive(DerType::BitString)
+    {
+        // Only the algorithm and the signature follow, nothing else may fill the certificate
+        return Err(ParseError::TBSBuilder);
+    }
 
     match der {
         EncodedForm::Constructed(cons) => match cons {
@@ -548,9 +549,7 @@ fn parse(
                     return Err(ParseError::TBSBuilder);
                 }
                 if is_tbs_certificate {
-                    // The signature and its algorithm stand behind the signed part
-                    res.signature_algorithm = None;
-                    res.signature = (None, None);
+                    res.signed_part_parsed = true;
                 }
             }
             DerType::ContextSpecific(tag) => {
@@ -579,10 +578,6 @@ fn parse(
                 *consumed += size;
                 if res.tbs_certificate.serial_number.is_none() {
                     res.tbs_certificate.serial_number = Some(int);
-                } else if res.signature.0.is_none() {
-                    res.signature.0 = Some(int);
-                } else {
-                    res.signature.1 = Some(int);
                 }
             }
             DerType::ObjectIdentifier => match state {
@@ -622,7 +617,7 @@ fn parse(
                             .as_mut()
                             .unwrap()
                             .parameters = Some(oji);
-                    } else if res.signature_algorithm.is_none() {
+                    } else if res.signed_part_parsed && res.signature_algorithm.is_none() {
                         res.signature_algorithm = Some(Algorithms::new(&oji)?);
                     }
                     *consumed += size;
@@ -661,7 +656,14 @@ fn parse(
                 if body.is_empty() {
                     return Err(ParseError::DerParseLen);
                 }
-                if body.len() > 1 && body[1] == 0x30 {
+                if res.signed_part_parsed {
+                    if let Ok((signature, size)) = Signature::from_der(&body[1..]) {
+                        if body[0] == 0 && size == body.len() - 1 && res.signature.is_none() {
+                            res.signature = Some(signature);
+                        }
+                    }
+                    *consumed += size;
+                } else if body.len() > 1 && body[1] == 0x30 {
                     *consumed += 1;
                     let size_should = size + *consumed - 1;
                     while size_should > *consumed {
-- 
2.43.0


From 242d3669027f831d4849b3afce5bc4aacbf062ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 32/33] fix: no application data is read behind a record that
 could not be opened

---
 anothertls/src/net/stream.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 7b12591..90f59b9 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -132,7 +132,15 @@ impl TlsStream {
 
             let (typ, data) = match self.protection.as_mut() {
                 Some(protection) if record.content_type == RecordType::ApplicationData => {
-                    protection.decrypt(record)?
+                    match protection.decrypt(record) {
+                        Ok(e) => e,
+                        Err(e) => {
+                            // The record is lost, so what follows it is not the
+                            // continuation of what has been read so far
+                            self.protection = None;
+                            return Err(e);
+                        }
+                    }
                 }
                 _ => return Err(TlsError::UnexpectedMessage),
             };
-- 
2.43.0


From 64544830c1382b2dac108b415def57bcfe057591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 33/33] fix: object identifiers which only end like a known one
 are unknown

---
 anothertls/src/utils/x509.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 841a150..52da707 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -231,7 +231,12 @@ impl SubjectPublicKeyInfoBuilder {
     }
 }
 fn parse_object_identifier(id: &[u8]) -> Result<String, ParseError> {
-    let id = bytes::to_u128_be_fill(id);
+    // Leading zeros and what follows the 16th byte belong to the identifier
+    let id = if id.is_empty() || id.len() > 16 || id[0] == 0 {
+        0
+    } else {
+        bytes::to_u128_be_fill(id)
+    };
     Ok(match id {
         0x550406 => "countryName".to_string(),
         0x550408 => "stateOrProvinceName".to_string(),
-- 
2.43.0

