From 12aff600a525d9bcf751a276cb6856691afd8c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 01/21] fix: read exactly length bytes of CRYPTO data, not
 length + offset

---
 src/frame.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 360cfaf..ffc6a91 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -222,8 +222,7 @@ impl FrameCrypto {
     {
         let offset = var_int_from_stream(datagram)?;
         let length = var_int_from_stream(datagram)?;
-        let total_size = (length + offset) as usize;
-        let crypto_data = var_bytes_from_stream(datagram, total_size)?;
+        let crypto_data = var_bytes_from_stream(datagram, length as usize)?;
         Ok(Self {
             offset,
             length,
-- 
2.43.0


From 974419e35dc41cb3d8c66f2329c0adcc4da8f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 02/21] fix: honour the OFF and LEN bits of STREAM frame types

---
 src/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index ffc6a91..705f0e7 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -297,8 +297,8 @@ impl FrameStream {
     where
         T: Iterator<Item = error::Result<u8>>,
     {
-        let has_offset = type_byte & 0x04 == 1;
-        let has_length = type_byte & 0x02 == 1;
+        let has_offset = type_byte & 0x04 != 0;
+        let has_length = type_byte & 0x02 != 0;
         let is_fin = type_byte & 0x01 == 1;
         let stream_id = var_int_from_stream(datagram)?;
         let offset = if has_offset {
-- 
2.43.0


From 4b42d6f8b4f08f80579108495eb4c8619e123500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 03/21] fix: reject frame types above 0xff instead of
 truncating them to a known type

---
 src/frame.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 705f0e7..fd9363a 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -797,8 +797,9 @@ pub fn deserialize_frame<T>(datagram: &mut T) -> error::Result<Frame>
 where
     T: Iterator<Item = error::Result<u8>>,
 {
-    let type_byte = var_int_from_stream(datagram)?;
-    let type_byte = (type_byte & (1 << 8) - 1) as u8;
+    let frame_type = var_int_from_stream(datagram)?;
+    let type_byte =
+        u8::try_from(frame_type).map_err(|_| Error::InternalError("Invalid frame type"))?;
     match type_byte {
         0x00 => Ok(Frame::Padding),
         0x01 => Ok(Frame::Ping),
-- 
2.43.0


From f9ddf116bde65b264746ae38b7dc1e338e26e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 04/21] fix: decode 4 and 8 byte varints from slices with the
 right length

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 922da40..639fd7d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -324,7 +324,7 @@ pub fn decode_var_int(data: &[u8]) -> error::Result<(u64, usize)> {
     if data.len() == 0 {
         return Err(Error::InternalError("missing first byte for varint"));
     }
-    let n_shifts = usize::from(data[0] >> 6);
+    let n_shifts = (1usize << usize::from(data[0] >> 6)) - 1;
     if data.len() < n_shifts + 1 {
         return Err(Error::InternalError("not enough bytes for varint"));
     }
-- 
2.43.0


From f0c3f2e70400f01c92b882360829555a12136e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:43 +0000
Subject: [PATCH 05/21] fix: consume only the packet number's own bytes before
 the packet payload

---
 src/packet.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 8e0aeb6..9345633 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -259,11 +259,13 @@ impl PacketInitial {
         let token = var_bytes_from_stream(stream, token_length as usize)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
         // get largest potential packet number
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        // only the bytes of the packet number itself precede the payload
+        var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
@@ -359,11 +361,13 @@ impl PacketZeroRtt {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = LongPacketHeader::from_stream(stream, header_byte)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        // only the bytes of the packet number itself precede the payload
+        var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
@@ -439,12 +443,14 @@ impl PacketHandshake {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = LongPacketHeader::from_stream(stream, header_byte)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
-        let mut packet_number_bytes = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes = var_bytes_from_stream(&mut offset_stream, 4)?;
         // assumes packet is encoded by the remote
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        // only the bytes of the packet number itself precede the payload
+        var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes, &mask)?;
         let packet_number_vec = packet_number_bytes[..packet_number_length].to_vec();
         let packet_number =
@@ -677,11 +683,13 @@ impl PacketOneRtt {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = ShortPacketHeader::from_stream(stream, header_byte)?;
         // get largest potential packet number
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        // only the bytes of the packet number itself precede the payload
+        var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
-- 
2.43.0


From 29b77df6b832bf8fcfbd5e896f4a630d1bbadec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:43 +0000
Subject: [PATCH 06/21] fix: reject packets whose length does not cover the
 packet number

---
 src/packet.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 9345633..f6880a5 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -270,8 +270,10 @@ impl PacketInitial {
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
-        let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+        let payload_length = (length as usize)
+            .checked_sub(packet_number_length)
+            .ok_or(Error::InternalError("packet length too small"))?;
+        let protected_frame_data = var_bytes_from_stream(stream, payload_length)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
@@ -372,8 +374,10 @@ impl PacketZeroRtt {
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
-        let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+        let payload_length = (length as usize)
+            .checked_sub(packet_number_length)
+            .ok_or(Error::InternalError("packet length too small"))?;
+        let protected_frame_data = var_bytes_from_stream(stream, payload_length)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
@@ -455,8 +459,10 @@ impl PacketHandshake {
         let packet_number_vec = packet_number_bytes[..packet_number_length].to_vec();
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
-        let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+        let payload_length = (length as usize)
+            .checked_sub(packet_number_length)
+            .ok_or(Error::InternalError("packet length too small"))?;
+        let protected_frame_data = var_bytes_from_stream(stream, payload_length)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
-- 
2.43.0


From 7f01ae872ef17240895f8d3f4b5fc48c4a78bd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:43 +0000
Subject: [PATCH 07/21] fix: reconstruct handshake packet numbers from the
 packet number bytes only

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index f6880a5..5eeda64 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -458,7 +458,7 @@ impl PacketHandshake {
         xor_pn_protection(&mut packet_number_bytes, &mask)?;
         let packet_number_vec = packet_number_bytes[..packet_number_length].to_vec();
         let packet_number =
-            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
+            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_vec[..])?;
         let payload_length = (length as usize)
             .checked_sub(packet_number_length)
             .ok_or(Error::InternalError("packet length too small"))?;
-- 
2.43.0


From fdc3d53600cc2f123aae74c396095ed9da5768d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:43 +0000
Subject: [PATCH 08/21] fix: reject payloads shorter than the authentication
 tag instead of panicking

---
 src/quictls/cipher_suite.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quictls/cipher_suite.rs b/src/quictls/cipher_suite.rs
index d8cb9b4..0c6bfdf 100644
--- a/src/quictls/cipher_suite.rs
+++ b/src/quictls/cipher_suite.rs
@@ -151,6 +151,9 @@ fn internal_decrypt_aes_128_gcm(
     associated_data: &[u8],
     payload: &[u8],
 ) -> error::Result<Vec<u8>> {
+    if payload.len() < AES_128_GCM_TAG_LEN {
+        return Err(Error::InternalError("payload too short for aes_128_gcm tag"));
+    }
     let tag = &payload[(payload.len() - AES_128_GCM_TAG_LEN)..];
     let cipher_text = &payload[..(payload.len() - 16)];
     decrypt_aead(
-- 
2.43.0


From d7cbade381418decd244a23b798f87ea82129823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:43 +0000
Subject: [PATCH 09/21] fix: report malformed packet headers as errors instead
 of panicking

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 5eeda64..a7d6733 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -787,7 +787,7 @@ where
     T: Iterator<Item = error::Result<u8>> + Clone,
 {
     let mut header_stream = stream.clone();
-    let header = next_header_from_stream(&mut header_stream).unwrap();
+    let header = next_header_from_stream(&mut header_stream)?;
     match header {
         PacketHeader::Short(_) => {
             let res = PacketOneRtt::from_stream(stream, connection)?;
-- 
2.43.0


From 26a27e864f86e97cafc197f4318b4528bd28eaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:43 +0000
Subject: [PATCH 10/21] fix: report received retry packets as errors instead of
 panicking

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index a7d6733..9ae4ab9 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -542,7 +542,7 @@ impl PacketRetry {
         T: Iterator<Item = error::Result<u8>>,
     {
         // TODO implement this after retry packet integrity implemented
-        todo!();
+        Err(Error::InternalError("retry packets are not supported"))
         // let version = u32::from_datagram(stream)?;
         // let destination_connection_id_length = u8::from_datagram(stream)?;
         // if destination_connection_id_length > 20 {
-- 
2.43.0


From 9029a7b110a450dc19439f93c0d27869444fe077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:43 +0000
Subject: [PATCH 11/21] fix: drop undeliverable datagrams instead of panicking
 the receive loop

---
 src/routing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/routing.rs b/src/routing.rs
index 92f0617..842d0f2 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -104,7 +104,10 @@ impl InternalQuicSocket {
             if ret_datagram {
                 return Ok(datagram);
             } else {
-                self.route_datagram(datagram).unwrap();
+                // datagrams that cannot be delivered are dropped
+                if let Err(x) = self.route_datagram(datagram) {
+                    eprintln!("{:?}", x);
+                }
             }
         }
     }
-- 
2.43.0


From 693cf65b3ceace3a1e3ab4cfc8cbde78ac9a027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:43 +0000
Subject: [PATCH 12/21] fix: do not print to (or panic on) stdout when input is
 truncated

---
 src/utils.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 639fd7d..26a2011 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,7 +1,6 @@
 use crate::error;
 use crate::error::Error;
 use std::alloc::{self, Layout};
-use std::io::{self, Write};
 
 #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
 pub struct U160 {
@@ -429,15 +428,12 @@ where
 {
     // this needs to be dynamic to avoid malicious large allocations
     let mut rv = Vec::<u8>::new();
-    for i in 0..n_bytes {
-        let tp = stream
-            .next()
-            .unwrap_or(Err(Error::InternalError("not enough bytes for var_bytes")));
-        if tp.is_err() {
-            println!("failed at: {}", i);
-            io::stdout().flush().unwrap();
-        }
-        rv.push(tp?);
+    for _ in 0..n_bytes {
+        rv.push(
+            stream
+                .next()
+                .unwrap_or(Err(Error::InternalError("not enough bytes for var_bytes")))?,
+        );
     }
     Ok(rv)
 }
-- 
2.43.0


From 9d2f7aabce22bf9d2ac98bb87bc6734db08d1e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:21 +0000
Subject: [PATCH 13/21] fix: reconstruct received packet numbers relative to
 the expected packet number

---
 src/connection.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 060251d..0e6ca6c 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -203,15 +203,18 @@ impl Connection {
         let mut tp_pn_bytes = [0u8; 4];
         tp_pn_bytes[(4 - pn_length)..].clone_from_slice(pn_lsb);
         let tp_pn = u32::from_be_bytes(tp_pn_bytes);
-        // TODO handle overflow
+        // www.rfc-editor.org/rfc/rfc9000#section-a.3
         let rv = if let Some(x) = largest_ack {
-            let mut la_bytes = [0u8; 4];
-            la_bytes.clone_from_slice(&x.to_be_bytes()[..4]);
-            let tp_la = u32::from_be_bytes(la_bytes);
-            if tp_pn > tp_la {
-                ((x >> pn_length) << pn_length) + u64::from(tp_pn)
+            let expected_pn = x + 1;
+            let pn_win = 1u64 << (pn_length * 8);
+            let pn_hwin = pn_win / 2;
+            let candidate_pn = (expected_pn & !(pn_win - 1)) | u64::from(tp_pn);
+            if candidate_pn + pn_hwin <= expected_pn && candidate_pn < (1u64 << 62) - pn_win {
+                candidate_pn + pn_win
+            } else if candidate_pn > expected_pn + pn_hwin && candidate_pn >= pn_win {
+                candidate_pn - pn_win
             } else {
-                (((x >> pn_length) + 1) << pn_length) + u64::from(tp_pn)
+                candidate_pn
             }
         } else {
             u64::from(tp_pn)
-- 
2.43.0


From 0795857a7b35cb900fce760cd48f3e480a7aeb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:21 +0000
Subject: [PATCH 14/21] fix: truncate packet numbers to more than twice the
 unacknowledged range

---
 src/connection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection.rs b/src/connection.rs
index 0e6ca6c..ef3e127 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -48,7 +48,8 @@ fn truncate_pn(pn: u64, largest_ack: Option<u64>) -> error::Result<Vec<u8>> {
                 ));
             }
             let diff = pn - x;
-            let bit_len = diff.floor_log2()?;
+            // one more bit than the difference to cover more than twice its range
+            let bit_len = diff.floor_log2()? + 1;
             let byte_len = bit_len / 8 + if bit_len % 8 == 0 { 0 } else { 1 };
             Ok(pn.to_be_bytes()[(8 - byte_len)..].to_vec())
         }
-- 
2.43.0


From c87a8b864bbbeed9c95f75e6412ad9ae2381c7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:21 +0000
Subject: [PATCH 15/21] fix: start every packet number space at packet number 0

---
 src/connection.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index ef3e127..79b57ed 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -239,11 +239,9 @@ impl Connection {
             PacketNumberSpace::Handshake => &mut self.handshake_pn_info,
             PacketNumberSpace::Application => &mut self.application_pn_info,
         };
+        let pn = pn_info.next_pn;
         pn_info.next_pn += 1;
-        Ok((
-            pn_info.next_pn,
-            truncate_pn(pn_info.next_pn, pn_info.largest_local_ack)?,
-        ))
+        Ok((pn, truncate_pn(pn, pn_info.largest_local_ack)?))
     }
 
     pub fn get_version_field(&self) -> u32 {
-- 
2.43.0


From 83c4af29a9d89fd9cc9be7d3447137f5b24ed4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:21 +0000
Subject: [PATCH 16/21] fix: receive datagrams of every size whole

---
 src/routing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/routing.rs b/src/routing.rs
index 842d0f2..cf7a99e 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -59,8 +59,8 @@ impl InternalQuicSocket {
     }
     fn recv_datagram(&self) -> std::io::Result<InternalDatagram> {
         let socket = self.socket.lock().unwrap();
-        // TODO investigate proper buffer size
-        let mut buff = [0u8; 4096];
+        // large enough for any udp datagram, a shorter buffer would truncate it
+        let mut buff = [0u8; 65535];
         let (amt, addr) = socket.recv_from(&mut buff)?;
         // to_vec used for length safety for allocated obj
         let data = buff[..amt].to_vec();
-- 
2.43.0


From 9d149338863d4921e53f3947229d7e225d8cd36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:21 +0000
Subject: [PATCH 17/21] fix: keep key material out of debug output

---
 src/quictls/secrets.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/quictls/secrets.rs b/src/quictls/secrets.rs
index 20ea898..b5b7849 100644
--- a/src/quictls/secrets.rs
+++ b/src/quictls/secrets.rs
@@ -9,7 +9,6 @@ const HEADER_PROTECTION_LABEL: &'static [u8; 7] = b"quic hp";
 const INITIAL_VECTOR_LABEL: &'static [u8; 7] = b"quic iv";
 const KEY_LABEL: &'static [u8; 8] = b"quic key";
 
-#[derive(Debug)]
 pub struct Secrets {
     cipher_suite: &'static QuicTlsCipherSuite,
     hp: Vec<u8>,
@@ -17,6 +16,13 @@ pub struct Secrets {
     key: Vec<u8>,
 }
 
+// key material must not end up in debug output
+impl std::fmt::Debug for Secrets {
+    fn fmt(&self, f: &mut std::fmt::Formatter) -> Result<(), std::fmt::Error> {
+        f.write_str("Secrets")
+    }
+}
+
 impl Secrets {
     pub fn from_initial(server: bool, cid_bytes: &[u8], version: &Version) -> error::Result<Self> {
         let cipher_suite = &cipher_suite::TLS13_AES_128_GCM_SHA256;
-- 
2.43.0


From d74a7054eeb44e3a357a7270748f879bc6973405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:21 +0000
Subject: [PATCH 18/21] fix: encode connection id length and reset token of
 preferred addresses

---
 src/transport_parameters.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transport_parameters.rs b/src/transport_parameters.rs
index 92941a0..36e08f0 100644
--- a/src/transport_parameters.rs
+++ b/src/transport_parameters.rs
@@ -8,6 +8,7 @@ pub struct PreferredAddress {
     ipv6_address: Ipv6Addr,
     ipv6_port: u16,
     connection_id: Vec<u8>,
+    stateless_reset_token: [u8; 16],
 }
 
 impl PreferredAddress {
@@ -17,7 +18,9 @@ impl PreferredAddress {
             &self.ipv4_port.to_be_bytes()[..],
             &self.ipv6_address.octets()[..],
             &self.ipv6_port.to_be_bytes()[..],
+            &[self.connection_id.len() as u8][..],
             &self.connection_id[..],
+            &self.stateless_reset_token[..],
         ]
         .concat()
     }
-- 
2.43.0


From bc77ecc2af0d3f69c71bf668e2f0175871413f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:21 +0000
Subject: [PATCH 19/21] fix: make set_log_traffic take effect

---
 src/interface.rs | 4 +++-
 src/routing.rs   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/interface.rs b/src/interface.rs
index ee73893..775bafb 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -46,5 +46,7 @@ impl QuicSocket {
             socket: self.socket.clone(),
         })
     }
-    pub fn set_log_traffic(&self, _log_traffic_flag: bool) {}
+    pub fn set_log_traffic(&self, log_traffic_flag: bool) {
+        self.socket.set_log_traffic(log_traffic_flag);
+    }
 }
diff --git a/src/routing.rs b/src/routing.rs
index cf7a99e..62b4c68 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -189,7 +189,7 @@ impl InternalQuicSocket {
         // Ok(rv)
     }
 
-    pub fn set_log_traffic(&mut self, log_traffic_flag: bool) {
+    pub fn set_log_traffic(&self, log_traffic_flag: bool) {
         let mut flag = self.log_traffic.write().unwrap();
         *flag = log_traffic_flag;
     }
-- 
2.43.0


From 29a6ff0e93970701a25f5ad578f2d9cd2a13bd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:37 +0000
Subject: [PATCH 20/21] fix: mark functions handing out uninitialised or zeroed
 memory unsafe

---
 src/utils.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 26a2011..4da7c87 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -460,22 +460,34 @@ where
     Ok(U160 { idx0, idx1 })
 }
 
-pub fn calloc_box_buffer<T>(len: usize) -> Box<[T]> {
+/// # Safety
+///
+/// `T` must not be zero sized, and the all-zero byte pattern must be a valid `T`
+pub unsafe fn calloc_box_buffer<T>(len: usize) -> Box<[T]> {
     if len == 0 {
         return Box::<[T]>::default();
     }
     let layout = Layout::array::<T>(len).unwrap();
     let ptr = unsafe { alloc::alloc_zeroed(layout) as *mut T };
+    if ptr.is_null() {
+        alloc::handle_alloc_error(layout);
+    }
     let slice_ptr = core::ptr::slice_from_raw_parts_mut(ptr, len);
     unsafe { Box::from_raw(slice_ptr) }
 }
 
-pub fn alloc_box_buffer<T>(len: usize) -> Box<[T]> {
+/// # Safety
+///
+/// `T` must not be zero sized, and any byte pattern, even an uninitialised one, must be a valid `T`
+pub unsafe fn alloc_box_buffer<T>(len: usize) -> Box<[T]> {
     if len == 0 {
         return Box::<[T]>::default();
     }
     let layout = Layout::array::<T>(len).unwrap();
     let ptr = unsafe { alloc::alloc(layout) as *mut T };
+    if ptr.is_null() {
+        alloc::handle_alloc_error(layout);
+    }
     let slice_ptr = core::ptr::slice_from_raw_parts_mut(ptr, len);
     unsafe { Box::from_raw(slice_ptr) }
 }
-- 
2.43.0


From 4db54f9f06a36ad62ee88334b6e19893feb799af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:06 +0000
Subject: [PATCH 21/21] fix: look up version negotiation datagrams under their
 destination id, not under 0

---
 src/packet.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 9ae4ab9..a152d0a 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -80,8 +80,16 @@ impl LongPacketHeader {
         } else {
             // version negotiation must not be limited to the supported version's id length rules
             let dcid_len = u8::from_datagram(stream)?;
-            let dcid = U160::zero();
             let destination_connection_id = var_bytes_from_stream(stream, dcid_len as usize)?;
+            // longer ids cannot name a connection
+            let dcid = if dcid_len <= 20 {
+                var_u160_from_stream(
+                    &mut utils::make_result_stream(&destination_connection_id),
+                    dcid_len,
+                )?
+            } else {
+                U160::zero()
+            };
             let scid_len = u8::from_datagram(stream)?;
             let scid = U160::zero();
             let source_connection_id = var_bytes_from_stream(stream, scid_len as usize)?;
-- 
2.43.0

