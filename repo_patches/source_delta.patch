From b464675053c4739685e67f2b9ddca596ded4ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:04 +0000
Subject: [PATCH 01/23] fix: decode_var_int reads the 1/2/4/8 byte forms
 instead of 1/2/3/4 bytes

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 922da40..639fd7d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -324,7 +324,7 @@ pub fn decode_var_int(data: &[u8]) -> error::Result<(u64, usize)> {
     if data.len() == 0 {
         return Err(Error::InternalError("missing first byte for varint"));
     }
-    let n_shifts = usize::from(data[0] >> 6);
+    let n_shifts = (1usize << usize::from(data[0] >> 6)) - 1;
     if data.len() < n_shifts + 1 {
         return Err(Error::InternalError("not enough bytes for varint"));
     }
-- 
2.43.0


From 71dfd40119591843ffb3e1bb7a39af92eeb9ec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:04 +0000
Subject: [PATCH 02/23] fix: honour the OFF and LEN bits when parsing STREAM
 frames

---
 src/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 360cfaf..8714bbf 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -298,8 +298,8 @@ impl FrameStream {
     where
         T: Iterator<Item = error::Result<u8>>,
     {
-        let has_offset = type_byte & 0x04 == 1;
-        let has_length = type_byte & 0x02 == 1;
+        let has_offset = type_byte & 0x04 == 0x04;
+        let has_length = type_byte & 0x02 == 0x02;
         let is_fin = type_byte & 0x01 == 1;
         let stream_id = var_int_from_stream(datagram)?;
         let offset = if has_offset {
-- 
2.43.0


From 5940163cbcf215e43fad7c7ef707230c7202182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:04 +0000
Subject: [PATCH 03/23] fix: a CRYPTO frame carries length bytes, not offset +
 length

---
 src/frame.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 8714bbf..cb2fb31 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -222,8 +222,7 @@ impl FrameCrypto {
     {
         let offset = var_int_from_stream(datagram)?;
         let length = var_int_from_stream(datagram)?;
-        let total_size = (length + offset) as usize;
-        let crypto_data = var_bytes_from_stream(datagram, total_size)?;
+        let crypto_data = var_bytes_from_stream(datagram, length as usize)?;
         Ok(Self {
             offset,
             length,
-- 
2.43.0


From 7a3ef5b663f496a0c33c3df34dcd06bc346d2ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:04 +0000
Subject: [PATCH 04/23] fix: reject frame types above 255 instead of reading
 their low byte

---
 src/frame.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frame.rs b/src/frame.rs
index cb2fb31..5f097aa 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -798,7 +798,8 @@ where
     T: Iterator<Item = error::Result<u8>>,
 {
     let type_byte = var_int_from_stream(datagram)?;
-    let type_byte = (type_byte & (1 << 8) - 1) as u8;
+    let type_byte =
+        u8::try_from(type_byte).map_err(|_| Error::InternalError("Invalid type byte"))?;
     match type_byte {
         0x00 => Ok(Frame::Padding),
         0x01 => Ok(Frame::Ping),
-- 
2.43.0


From 8a2d0fff324c79bdd6872d81c8452177ee91d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:04 +0000
Subject: [PATCH 05/23] fix: return an error for a truncated header instead of
 panicking in decode_next_packet

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 8e0aeb6..4bcf179 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -773,7 +773,7 @@ where
     T: Iterator<Item = error::Result<u8>> + Clone,
 {
     let mut header_stream = stream.clone();
-    let header = next_header_from_stream(&mut header_stream).unwrap();
+    let header = next_header_from_stream(&mut header_stream)?;
     match header {
         PacketHeader::Short(_) => {
             let res = PacketOneRtt::from_stream(stream, connection)?;
-- 
2.43.0


From a41db104eb4e4d4af18ecad21f9205a876a6bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:04 +0000
Subject: [PATCH 06/23] fix: a received Retry packet is an error, not a panic

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 4bcf179..c4d5751 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -530,7 +530,7 @@ impl PacketRetry {
         T: Iterator<Item = error::Result<u8>>,
     {
         // TODO implement this after retry packet integrity implemented
-        todo!();
+        Err(Error::InternalError("retry packets are not supported"))
         // let version = u32::from_datagram(stream)?;
         // let destination_connection_id_length = u8::from_datagram(stream)?;
         // if destination_connection_id_length > 20 {
-- 
2.43.0


From 9bbeb6dde0b77e376ac52eb7f25f2ca8b859a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:04 +0000
Subject: [PATCH 07/23] fix: opening a payload shorter than its tag is an
 error, not a panic

---
 src/quictls/cipher_suite.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quictls/cipher_suite.rs b/src/quictls/cipher_suite.rs
index d8cb9b4..0c6bfdf 100644
--- a/src/quictls/cipher_suite.rs
+++ b/src/quictls/cipher_suite.rs
@@ -151,6 +151,9 @@ fn internal_decrypt_aes_128_gcm(
     associated_data: &[u8],
     payload: &[u8],
 ) -> error::Result<Vec<u8>> {
+    if payload.len() < AES_128_GCM_TAG_LEN {
+        return Err(Error::InternalError("payload too short for aes_128_gcm tag"));
+    }
     let tag = &payload[(payload.len() - AES_128_GCM_TAG_LEN)..];
     let cipher_text = &payload[..(payload.len() - 16)];
     decrypt_aead(
-- 
2.43.0


From d86210de9f678593e7c9f4837b67c5a9dd732f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:04 +0000
Subject: [PATCH 08/23] fix: drop unroutable datagrams instead of panicking
 while accepting

---
 src/routing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/routing.rs b/src/routing.rs
index 92f0617..2889064 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -103,8 +103,9 @@ impl InternalQuicSocket {
             };
             if ret_datagram {
                 return Ok(datagram);
-            } else {
-                self.route_datagram(datagram).unwrap();
+            } else if let Err(x) = self.route_datagram(datagram) {
+                // datagrams that cannot be routed are dropped
+                eprintln!("{:?}", x);
             }
         }
     }
-- 
2.43.0


From 7ed3369b4199c380905eb2fec804a7f8913f8760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:45 +0000
Subject: [PATCH 09/23] fix: reconstruct Handshake packet numbers from the
 packet number bytes only

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index c4d5751..81dbc73 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -448,7 +448,7 @@ impl PacketHandshake {
         xor_pn_protection(&mut packet_number_bytes, &mask)?;
         let packet_number_vec = packet_number_bytes[..packet_number_length].to_vec();
         let packet_number =
-            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
+            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_vec[..])?;
         let protected_frame_data =
             var_bytes_from_stream(stream, length as usize - packet_number_length)?;
         // create associated data
-- 
2.43.0


From 116a65b81ace49310d40b95adfa064e65bb72177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:45 +0000
Subject: [PATCH 10/23] fix: a length field smaller than the packet number is
 an error, not a panic

---
 src/packet.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 81dbc73..852c07c 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -34,6 +34,13 @@ fn xor_pn_protection(pn_bytes: &mut [u8], mask: &[u8; 5]) -> error::Result<()> {
     }
 }
 
+/// Length of the protected payload, given the length field of the packet
+fn payload_length(length: u64, packet_number_length: usize) -> error::Result<usize> {
+    (length as usize)
+        .checked_sub(packet_number_length)
+        .ok_or(Error::InternalError("length too small for packet number"))
+}
+
 impl LongPacketHeader {
     const HEADER_BITS: u8 = 0xc0;
     pub fn from_connection(connection: &Connection, header_byte: u8) -> error::Result<Self> {
@@ -269,7 +276,7 @@ impl PacketInitial {
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
         let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+            var_bytes_from_stream(stream, payload_length(length, packet_number_length)?)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
@@ -369,7 +376,7 @@ impl PacketZeroRtt {
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
         let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+            var_bytes_from_stream(stream, payload_length(length, packet_number_length)?)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
@@ -450,7 +457,7 @@ impl PacketHandshake {
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_vec[..])?;
         let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+            var_bytes_from_stream(stream, payload_length(length, packet_number_length)?)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
-- 
2.43.0


From 057a3117502047557d17e2f0e5576677dc780cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:45 +0000
Subject: [PATCH 11/23] fix: decode packets whose packet number is shorter than
 four bytes

---
 src/packet.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 852c07c..8d82895 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -266,8 +266,8 @@ impl PacketInitial {
         let token = var_bytes_from_stream(stream, token_length as usize)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
         // get largest potential packet number
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
@@ -275,6 +275,8 @@ impl PacketInitial {
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
+        // the payload starts right after the packet number
+        var_bytes_from_stream(stream, packet_number_length)?;
         let protected_frame_data =
             var_bytes_from_stream(stream, payload_length(length, packet_number_length)?)?;
         // create associated data
@@ -366,8 +368,8 @@ impl PacketZeroRtt {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = LongPacketHeader::from_stream(stream, header_byte)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
@@ -375,6 +377,8 @@ impl PacketZeroRtt {
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
+        // the payload starts right after the packet number
+        var_bytes_from_stream(stream, packet_number_length)?;
         let protected_frame_data =
             var_bytes_from_stream(stream, payload_length(length, packet_number_length)?)?;
         // create associated data
@@ -446,8 +450,8 @@ impl PacketHandshake {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = LongPacketHeader::from_stream(stream, header_byte)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
-        let mut packet_number_bytes = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes = var_bytes_from_stream(&mut offset_stream, 4)?;
         // assumes packet is encoded by the remote
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
@@ -456,6 +460,8 @@ impl PacketHandshake {
         let packet_number_vec = packet_number_bytes[..packet_number_length].to_vec();
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_vec[..])?;
+        // the payload starts right after the packet number
+        var_bytes_from_stream(stream, packet_number_length)?;
         let protected_frame_data =
             var_bytes_from_stream(stream, payload_length(length, packet_number_length)?)?;
         // create associated data
@@ -684,8 +690,8 @@ impl PacketOneRtt {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = ShortPacketHeader::from_stream(stream, header_byte)?;
         // get largest potential packet number
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
@@ -693,6 +699,8 @@ impl PacketOneRtt {
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
+        // the payload starts right after the packet number
+        var_bytes_from_stream(stream, packet_number_length)?;
         let protected_frame_data = utils::all_bytes_from_stream(stream)?;
         let associated_data = [&header.to_bytes(), &packet_number_bytes[..]].concat();
         let frame_data = connection.decrypt_remote_payload(
-- 
2.43.0


From fad3c194c76d780f7536fe48973561c96073dc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:45 +0000
Subject: [PATCH 12/23] fix: write version negotiation headers with the
 connection ids they carry

---
 src/packet.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 8d82895..0631c42 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -123,17 +123,26 @@ impl LongPacketHeader {
         Ok(rv)
     }
     pub fn to_bytes(&self) -> Vec<u8> {
+        // version negotiation ids can exceed the capacity of U160
+        let (dcid, scid) = match self.version_negotiation {
+            Some(ref x) => (
+                x.destination_connection_id.clone(),
+                x.source_connection_id.clone(),
+            ),
+            None => (
+                self.destination_connection_id
+                    .to_var_bytes(self.destination_connection_id_length as usize),
+                self.source_connection_id
+                    .to_var_bytes(self.source_connection_id_length as usize),
+            ),
+        };
         [
             &[self.header_byte][..],
             &self.version.to_be_bytes(),
             &[self.destination_connection_id_length][..],
-            &self
-                .destination_connection_id
-                .to_var_bytes(self.destination_connection_id_length as usize)[..],
+            &dcid[..],
             &[self.source_connection_id_length][..],
-            &self
-                .source_connection_id
-                .to_var_bytes(self.source_connection_id_length as usize)[..],
+            &scid[..],
         ]
         .concat()
     }
-- 
2.43.0


From 58305fcfdd81372dc216712a5104ee29c1faa237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:45 +0000
Subject: [PATCH 13/23] fix: version negotiation packets report their
 connection ids for routing

---
 src/packet.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 0631c42..062188f 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -87,11 +87,26 @@ impl LongPacketHeader {
         } else {
             // version negotiation must not be limited to the supported version's id length rules
             let dcid_len = u8::from_datagram(stream)?;
-            let dcid = U160::zero();
             let destination_connection_id = var_bytes_from_stream(stream, dcid_len as usize)?;
+            // ids too long for a supported version cannot belong to a connection
+            let dcid = if dcid_len <= 20 {
+                var_u160_from_stream(
+                    &mut utils::make_result_stream(&destination_connection_id),
+                    dcid_len,
+                )?
+            } else {
+                U160::zero()
+            };
             let scid_len = u8::from_datagram(stream)?;
-            let scid = U160::zero();
             let source_connection_id = var_bytes_from_stream(stream, scid_len as usize)?;
+            let scid = if scid_len <= 20 {
+                var_u160_from_stream(
+                    &mut utils::make_result_stream(&source_connection_id),
+                    scid_len,
+                )?
+            } else {
+                U160::zero()
+            };
             (
                 Some(VersionNegotiationHeaderUnionFields {
                     destination_connection_id,
-- 
2.43.0


From 67b2e6a6c563d0cff528fb244b733ff5626f6afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:45 +0000
Subject: [PATCH 14/23] fix: truncate packet numbers to twice the distance from
 the largest acknowledged

---
 src/connection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/connection.rs b/src/connection.rs
index 060251d..fc40327 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -48,7 +48,9 @@ fn truncate_pn(pn: u64, largest_ack: Option<u64>) -> error::Result<Vec<u8>> {
                 ));
             }
             let diff = pn - x;
-            let bit_len = diff.floor_log2()?;
+            // one bit more than the distance, so that the receiver can tell on which
+            // side of its largest packet number this one lies
+            let bit_len = diff.floor_log2()? + 1;
             let byte_len = bit_len / 8 + if bit_len % 8 == 0 { 0 } else { 1 };
             Ok(pn.to_be_bytes()[(8 - byte_len)..].to_vec())
         }
-- 
2.43.0


From bccbe3191ad6e290489f17457c8d926509b3a608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:45 +0000
Subject: [PATCH 15/23] fix: reconstruct packet numbers relative to the largest
 received one

---
 src/connection.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index fc40327..ff5ddb8 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -205,15 +205,17 @@ impl Connection {
         let mut tp_pn_bytes = [0u8; 4];
         tp_pn_bytes[(4 - pn_length)..].clone_from_slice(pn_lsb);
         let tp_pn = u32::from_be_bytes(tp_pn_bytes);
-        // TODO handle overflow
         let rv = if let Some(x) = largest_ack {
-            let mut la_bytes = [0u8; 4];
-            la_bytes.clone_from_slice(&x.to_be_bytes()[..4]);
-            let tp_la = u32::from_be_bytes(la_bytes);
-            if tp_pn > tp_la {
-                ((x >> pn_length) << pn_length) + u64::from(tp_pn)
+            // closest number to the next expected one (rfc9000 appendix A.3)
+            let expected = x + 1;
+            let window = 1u64 << (8 * pn_length);
+            let candidate = (expected & !(window - 1)) | u64::from(tp_pn);
+            if candidate + window / 2 <= expected && candidate + window < (1 << 62) {
+                candidate + window
+            } else if candidate > expected + window / 2 && candidate >= window {
+                candidate - window
             } else {
-                (((x >> pn_length) + 1) << pn_length) + u64::from(tp_pn)
+                candidate
             }
         } else {
             u64::from(tp_pn)
-- 
2.43.0


From b45c105ef1b5905f688b4e73cd3384e37d7438c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:45 +0000
Subject: [PATCH 16/23] fix: write connection id length and reset token of a
 preferred address

---
 src/transport_parameters.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transport_parameters.rs b/src/transport_parameters.rs
index 92941a0..36e08f0 100644
--- a/src/transport_parameters.rs
+++ b/src/transport_parameters.rs
@@ -8,6 +8,7 @@ pub struct PreferredAddress {
     ipv6_address: Ipv6Addr,
     ipv6_port: u16,
     connection_id: Vec<u8>,
+    stateless_reset_token: [u8; 16],
 }
 
 impl PreferredAddress {
@@ -17,7 +18,9 @@ impl PreferredAddress {
             &self.ipv4_port.to_be_bytes()[..],
             &self.ipv6_address.octets()[..],
             &self.ipv6_port.to_be_bytes()[..],
+            &[self.connection_id.len() as u8][..],
             &self.connection_id[..],
+            &self.stateless_reset_token[..],
         ]
         .concat()
     }
-- 
2.43.0


From 7d06389108ac1eedf3db85c453e3e11db5bd17db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:45 +0000
Subject: [PATCH 17/23] fix: do not route connection ids of another length to a
 connection

---
 src/routing.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/routing.rs b/src/routing.rs
index 2889064..c341b87 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -32,6 +32,17 @@ pub(crate) struct InternalQuicSocket {
     log_traffic: RwLock<bool>,
 }
 
+/// Key of the connection a packet is addressed to
+///
+/// connection ids issued by this implementation are always 8 bytes long, as such
+/// an id of any other length is not the id of a connection
+fn routing_key(header: &PacketHeader) -> Option<U160> {
+    match header.get_destination_id_length() {
+        8 => Some(header.get_destination_id()),
+        _ => None,
+    }
+}
+
 impl InternalQuicStream {
     pub fn from_connection(connection: Connection) -> Self {
         let (sender, receiver) = channel::<InternalDatagram>();
@@ -82,14 +93,11 @@ impl InternalQuicSocket {
                             PacketHeader::Long(ref x) => x.packet_type(),
                             PacketHeader::Short(ref x) => x.packet_type(),
                         };
-                        let dcid = match x {
-                            PacketHeader::Long(ref x) => x.destination_connection_id,
-                            PacketHeader::Short(ref x) => x.destination_connection_id,
-                        };
                         match packet_type {
-                            PacketType::Initial => {
-                                !self.streams.read().unwrap().contains_key(&dcid)
-                            }
+                            PacketType::Initial => match routing_key(&x) {
+                                Some(dcid) => !self.streams.read().unwrap().contains_key(&dcid),
+                                None => true,
+                            },
                             // TODO ZeroRtt packets should be buffered from here
                             _ => false,
                         }
@@ -115,10 +123,8 @@ impl InternalQuicSocket {
             .iter()
             .map(|x| -> error::Result<u8> { Ok(x.clone()) });
         let route_header = next_header_from_stream(&mut stream)?;
-        let connection_id = match route_header {
-            PacketHeader::Short(ref x) => x.destination_connection_id,
-            PacketHeader::Long(ref x) => x.destination_connection_id,
-        };
+        let connection_id =
+            routing_key(&route_header).ok_or(Error::InternalError("missing connection"))?;
         match self.streams.read().unwrap().get(&connection_id) {
             Some(x) => x
                 .sender
@@ -137,7 +143,7 @@ impl InternalQuicSocket {
         let rv = {
             let streams_map = self.streams.read().unwrap();
             let route_stream = streams_map
-                .get(&header.get_destination_id())
+                .get(&routing_key(&header).ok_or(Error::InternalError("connection not found"))?)
                 .ok_or(Error::InternalError("connection not found"))?;
             let connection = route_stream.connection.read().unwrap();
             decode_packets(&mut stream, &connection)
-- 
2.43.0


From a690c218b1473ab62bcfd3d4d27224413e7e24f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:59 +0000
Subject: [PATCH 18/23] fix: only version 1 Initial packets open a connection

---
 src/routing.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/routing.rs b/src/routing.rs
index c341b87..e6e6d0d 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -93,8 +93,15 @@ impl InternalQuicSocket {
                             PacketHeader::Long(ref x) => x.packet_type(),
                             PacketHeader::Short(ref x) => x.packet_type(),
                         };
+                        // TODO unsupported versions should be negotiated from here
+                        let is_supported = match x {
+                            PacketHeader::Long(ref x) => {
+                                x.version == version::Version::V1.get_version_field_val()
+                            }
+                            PacketHeader::Short(_) => true,
+                        };
                         match packet_type {
-                            PacketType::Initial => match routing_key(&x) {
+                            PacketType::Initial if is_supported => match routing_key(&x) {
                                 Some(dcid) => !self.streams.read().unwrap().contains_key(&dcid),
                                 None => true,
                             },
-- 
2.43.0


From 27b76833d43d5e94be126f750eb83a64d90894c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:42 +0000
Subject: [PATCH 19/23] fix: do not cut received datagrams off at 4096 bytes

---
 src/routing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/routing.rs b/src/routing.rs
index e6e6d0d..3a74ce5 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -70,8 +70,8 @@ impl InternalQuicSocket {
     }
     fn recv_datagram(&self) -> std::io::Result<InternalDatagram> {
         let socket = self.socket.lock().unwrap();
-        // TODO investigate proper buffer size
-        let mut buff = [0u8; 4096];
+        // large enough for any udp datagram
+        let mut buff = [0u8; 65536];
         let (amt, addr) = socket.recv_from(&mut buff)?;
         // to_vec used for length safety for allocated obj
         let data = buff[..amt].to_vec();
-- 
2.43.0


From a288929c7c6cc951a3407ae21e1fcb76914a88b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:01 +0000
Subject: [PATCH 20/23] verification hooks, compiled only with --cfg
 quic_sea_verif

---
 src/connection.rs                 |   3 +
 src/connection/verif.rs           |  53 ++++++++
 src/frame.rs                      |   3 +
 src/frame/verif.rs                | 203 ++++++++++++++++++++++++++++++
 src/interface.rs                  |   3 +
 src/interface/verif.rs            |  41 ++++++
 src/lib.rs                        |   4 +
 src/packet.rs                     |   3 +
 src/packet/verif.rs               | 156 +++++++++++++++++++++++
 src/quictls/mod.rs                |   4 +-
 src/quictls/secrets.rs            |   3 +
 src/quictls/secrets/verif.rs      |  11 ++
 src/quictls/utils.rs              |   4 +
 src/routing.rs                    |   3 +
 src/routing/verif.rs              |  67 ++++++++++
 src/transport_parameters.rs       |   3 +
 src/transport_parameters/verif.rs |  44 +++++++
 src/verif.rs                      | 103 +++++++++++++++
 18 files changed, 710 insertions(+), 1 deletion(-)
 create mode 100644 src/connection/verif.rs
 create mode 100644 src/frame/verif.rs
 create mode 100644 src/interface/verif.rs
 create mode 100644 src/packet/verif.rs
 create mode 100644 src/quictls/secrets/verif.rs
 create mode 100644 src/routing/verif.rs
 create mode 100644 src/transport_parameters/verif.rs
 create mode 100644 src/verif.rs

diff --git a/src/connection.rs b/src/connection.rs
index ff5ddb8..66ad373 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -3,6 +3,9 @@ use crate::quictls;
 use crate::utils::prelude::*;
 use crate::version;
 
+#[cfg(quic_sea_verif)]
+pub mod verif;
+
 #[derive(Debug)]
 pub enum PacketNumberSpace {
     Initial,
diff --git a/src/connection/verif.rs b/src/connection/verif.rs
new file mode 100644
index 0000000..60f497f
--- /dev/null
+++ b/src/connection/verif.rs
@@ -0,0 +1,53 @@
+//! Verification hooks: state of a connection
+use super::*;
+
+/// Position of a packet number space: largest packet number received from the peer,
+/// largest own packet number acknowledged by it, last packet number handed out
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub struct Position {
+    pub largest_received: Option<u64>,
+    pub largest_acked: Option<u64>,
+    pub last_sent: u64,
+}
+
+impl Connection {
+    pub fn verif_position(&self, pn_space: PacketNumberSpace) -> Position {
+        let info = self.borrow_pn_info(pn_space);
+        Position {
+            largest_received: info.largest_remote_ack,
+            largest_acked: info.largest_local_ack,
+            last_sent: info.next_pn,
+        }
+    }
+    /// A packet was received from the peer
+    pub fn verif_set_largest_received(&mut self, pn_space: PacketNumberSpace, pn: Option<u64>) {
+        self.borrow_mut_pn_info(pn_space).largest_remote_ack = pn;
+    }
+    /// The peer acknowledged a packet
+    pub fn verif_set_largest_acked(&mut self, pn_space: PacketNumberSpace, pn: Option<u64>) {
+        self.borrow_mut_pn_info(pn_space).largest_local_ack = pn;
+    }
+    pub fn verif_set_last_sent(&mut self, pn_space: PacketNumberSpace, pn: u64) {
+        self.borrow_mut_pn_info(pn_space).next_pn = pn;
+    }
+    /// Installs keys as the end of a handshake would
+    pub fn verif_install(
+        &mut self,
+        pn_space: PacketNumberSpace,
+        local: Option<quictls::Secrets>,
+        remote: Option<quictls::Secrets>,
+    ) {
+        let info = self.borrow_mut_pn_info(pn_space);
+        info.local_tls_secrets = local;
+        info.remote_tls_secrets = remote;
+    }
+    pub fn verif_local_secrets(&self, pn_space: PacketNumberSpace) -> Option<&quictls::Secrets> {
+        self.borrow_local_tls_secrets(pn_space).ok()
+    }
+    pub fn verif_remote_secrets(&self, pn_space: PacketNumberSpace) -> Option<&quictls::Secrets> {
+        self.borrow_remote_tls_secrets(pn_space).ok()
+    }
+    pub fn verif_ids(&self) -> ((U160, usize), Option<(U160, usize)>) {
+        (self.dcid, self.scid)
+    }
+}
diff --git a/src/frame.rs b/src/frame.rs
index 5f097aa..9b4e835 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -5,6 +5,9 @@ use crate::utils::{
     self, all_bytes_from_stream, var_bytes_from_stream, var_int_from_stream, var_u160_from_stream,
 };
 
+#[cfg(quic_sea_verif)]
+pub mod verif;
+
 #[derive(Debug)]
 struct EcnCounts {
     ect0_count: u64,
diff --git a/src/frame/verif.rs b/src/frame/verif.rs
new file mode 100644
index 0000000..65c4bee
--- /dev/null
+++ b/src/frame/verif.rs
@@ -0,0 +1,203 @@
+//! Verification hooks: frames from and to plain records
+use super::*;
+use crate::verif::{Rec, Val};
+
+pub fn view(frame: &Frame) -> Rec {
+    use Val::*;
+    match frame {
+        Frame::Padding => Rec::new("padding", vec![]),
+        Frame::Ping => Rec::new("ping", vec![]),
+        Frame::Ack(x) => Rec::new(
+            "ack",
+            vec![
+                ("largest", U(x.largest_acknowledged)),
+                ("delay", U(x.ack_delay)),
+                ("count", U(x.ack_range_count)),
+                ("first", U(x.first_ack_range)),
+                (
+                    "ranges",
+                    L(x.ack_range
+                        .iter()
+                        .flat_map(|r| vec![r.gap, r.ack_range_length])
+                        .collect()),
+                ),
+                (
+                    "ecn",
+                    L(x.ecn_counts
+                        .iter()
+                        .flat_map(|e| vec![e.ect0_count, e.ect1_count, e.ecn_ce_count])
+                        .collect()),
+                ),
+            ],
+        ),
+        Frame::ResetStream(x) => Rec::new(
+            "reset_stream",
+            vec![
+                ("id", U(x.stream_id)),
+                ("err", U(x.application_protocol_error_code)),
+                ("size", U(x.final_size)),
+            ],
+        ),
+        Frame::StopSending(x) => Rec::new(
+            "stop_sending",
+            vec![
+                ("id", U(x.stream_id)),
+                ("err", U(x.application_protocol_error_code)),
+            ],
+        ),
+        Frame::Crypto(x) => Rec::new(
+            "crypto",
+            vec![
+                ("off", U(x.offset)),
+                ("len", U(x.length)),
+                ("data", B(x.crypto_data.clone())),
+            ],
+        ),
+        Frame::NewToken(x) => Rec::new(
+            "new_token",
+            vec![("len", U(x.token_length)), ("data", B(x.token.clone()))],
+        ),
+        Frame::Stream(x) => Rec::new(
+            "stream",
+            vec![
+                ("id", U(x.stream_id)),
+                ("off", U(x.offset)),
+                ("len", U(x.length)),
+                ("data", B(x.stream_data.clone())),
+                ("fin", F(x.is_fin)),
+            ],
+        ),
+        Frame::MaxData(x) => Rec::new("max_data", vec![("v", U(x.maximum_data))]),
+        Frame::MaxStreamData(x) => Rec::new(
+            "max_stream_data",
+            vec![("id", U(x.stream_id)), ("v", U(x.maximum_stream_data))],
+        ),
+        Frame::MaxStreams(x) => Rec::new(
+            "max_streams",
+            vec![("v", U(x.maximum_streams)), ("uni", F(x.is_unidirectional))],
+        ),
+        Frame::DataBlocked(x) => Rec::new("data_blocked", vec![("v", U(x.maximum_data))]),
+        Frame::StreamDataBlocked(x) => Rec::new(
+            "stream_data_blocked",
+            vec![("id", U(x.stream_id)), ("v", U(x.maximum_stream_data))],
+        ),
+        Frame::StreamsBlocked(x) => Rec::new(
+            "streams_blocked",
+            vec![
+                ("v", U(x.maximum_streams)),
+                ("uni", F(x.is_unidirectional_limit)),
+            ],
+        ),
+        Frame::NewConnectionId(x) => Rec::new(
+            "new_cid",
+            vec![
+                ("seq", U(x.sequence_number)),
+                ("retire", U(x.retire_prior_to)),
+                ("len", U(x.length as u64)),
+                ("cid", B(x.connection_id.to_bytes().to_vec())),
+                ("token", B(x.stateless_reset_token.to_be_bytes().to_vec())),
+            ],
+        ),
+        Frame::RetireConnectionId(x) => Rec::new("retire_cid", vec![("seq", U(x.sequence_number))]),
+        Frame::PathChallenge(x) => Rec::new("path_challenge", vec![("v", U(x.data))]),
+        Frame::PathResponse(x) => Rec::new("path_response", vec![("v", U(x.data))]),
+        Frame::ConnectionClose(x) => Rec::new(
+            "close",
+            vec![
+                ("err", U(x.error_code)),
+                ("ftype", L(x.frame_type.iter().cloned().collect())),
+                ("len", U(x.reason_phrase_length)),
+                ("data", B(x.reason_phrase.clone())),
+                ("app", F(x.is_application_error)),
+            ],
+        ),
+        Frame::HandshakeDone => Rec::new("handshake_done", vec![]),
+    }
+}
+
+/// Frame with the given fields, lengths and counts follow from the data
+pub fn build(r: &Rec) -> Frame {
+    match &r.kind[..] {
+        "padding" => Frame::Padding,
+        "ping" => Frame::Ping,
+        "ack" => Frame::Ack(FrameAck {
+            largest_acknowledged: r.int("largest"),
+            ack_delay: r.int("delay"),
+            ack_range_count: (r.list("ranges").len() / 2) as u64,
+            first_ack_range: r.int("first"),
+            ack_range: r
+                .list("ranges")
+                .chunks(2)
+                .map(|x| AckRange {
+                    gap: x[0],
+                    ack_range_length: x[1],
+                })
+                .collect(),
+            ecn_counts: match r.list("ecn")[..] {
+                [ect0_count, ect1_count, ecn_ce_count] => Some(EcnCounts {
+                    ect0_count,
+                    ect1_count,
+                    ecn_ce_count,
+                }),
+                _ => None,
+            },
+        }),
+        "reset_stream" => Frame::ResetStream(FrameResetStream::new(
+            r.int("id"),
+            r.int("err"),
+            r.int("size"),
+        )),
+        "stop_sending" => Frame::StopSending(FrameStopSending::new(r.int("id"), r.int("err"))),
+        "crypto" => {
+            let mut frame = FrameCrypto::new(r.bytes("data"));
+            frame.offset = r.int("off");
+            Frame::Crypto(frame)
+        }
+        "new_token" => Frame::NewToken(FrameNewToken::new(r.bytes("data"))),
+        "stream" => {
+            let mut frame = FrameStream::new(r.int("id"), r.bytes("data"), r.flag("fin"));
+            frame.offset = r.int("off");
+            Frame::Stream(frame)
+        }
+        "max_data" => Frame::MaxData(FrameMaxData::new(r.int("v"))),
+        "max_stream_data" => {
+            Frame::MaxStreamData(FrameMaxStreamData::new(r.int("id"), r.int("v")))
+        }
+        "max_streams" => Frame::MaxStreams(FrameMaxStreams::new(r.int("v"), r.flag("uni"))),
+        "data_blocked" => Frame::DataBlocked(FrameDataBlocked::new(r.int("v"))),
+        "stream_data_blocked" => {
+            Frame::StreamDataBlocked(FrameStreamDataBlocked::new(r.int("id"), r.int("v")))
+        }
+        "streams_blocked" => {
+            Frame::StreamsBlocked(FrameStreamsBlocked::new(r.int("v"), r.flag("uni")))
+        }
+        "new_cid" => {
+            let cid = r.bytes("cid");
+            let token = r
+                .bytes("token")
+                .iter()
+                .fold(0u128, |acc, x| (acc << 8) | u128::from(*x));
+            let mut frame = FrameNewConnectionId::new(
+                r.int("seq"),
+                r.int("retire"),
+                crate::verif::u160(&cid[..]),
+                token,
+            );
+            // frames received from a peer can carry an id of another length
+            if cid.len() != 8 {
+                frame.length = cid.len() as u8;
+            }
+            Frame::NewConnectionId(frame)
+        }
+        "retire_cid" => Frame::RetireConnectionId(FrameRetireConnectionId::new(r.int("seq"))),
+        "path_challenge" => Frame::PathChallenge(FramePathChallenge::new(r.int("v"))),
+        "path_response" => Frame::PathResponse(FramePathResponse::new(r.int("v"))),
+        "close" => Frame::ConnectionClose(if r.flag("app") {
+            FrameConnectionClose::new_application_error(r.int("err"), r.bytes("data"))
+        } else {
+            FrameConnectionClose::new_error(r.int("err"), r.list("ftype")[0], r.bytes("data"))
+        }),
+        "handshake_done" => Frame::HandshakeDone,
+        x => panic!("verif: unknown frame kind {}", x),
+    }
+}
diff --git a/src/interface.rs b/src/interface.rs
index ee73893..6a0a050 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -3,6 +3,9 @@ use crate::utils::U160;
 use std::net::ToSocketAddrs;
 use std::sync::Arc;
 
+#[cfg(quic_sea_verif)]
+pub mod verif;
+
 #[derive(Debug)]
 pub struct QuicSocket {
     socket: Arc<InternalQuicSocket>,
diff --git a/src/interface/verif.rs b/src/interface/verif.rs
new file mode 100644
index 0000000..0ef3f96
--- /dev/null
+++ b/src/interface/verif.rs
@@ -0,0 +1,41 @@
+//! Verification hooks: the internals of a socket
+use super::*;
+pub use crate::routing::verif::ConnectionView;
+use crate::packet::verif::PacketView;
+use std::net::SocketAddr;
+
+/// Handle of a live connection, as returned to its user
+pub fn handle(socket: &QuicSocket, connection_id: U160) -> QuicStream {
+    QuicStream {
+        connection_id,
+        socket: socket.socket.clone(),
+    }
+}
+
+pub fn handle_id(stream: &QuicStream) -> U160 {
+    stream.connection_id
+}
+
+pub fn local_addr(socket: &QuicSocket) -> SocketAddr {
+    socket.socket.verif_local_addr()
+}
+
+pub fn set_read_timeout(socket: &QuicSocket, timeout: std::time::Duration) {
+    socket.socket.verif_set_read_timeout(timeout)
+}
+
+pub fn connections(socket: &QuicSocket) -> Vec<ConnectionView> {
+    socket.socket.verif_connections()
+}
+
+pub fn drain(socket: &QuicSocket, key: U160) -> Option<Vec<(Vec<u8>, SocketAddr)>> {
+    socket.socket.verif_drain(key)
+}
+
+pub fn decode(
+    socket: &QuicSocket,
+    data: &[u8],
+    addr: SocketAddr,
+) -> crate::error::Result<Vec<PacketView>> {
+    socket.socket.verif_decode(data, addr)
+}
diff --git a/src/lib.rs b/src/lib.rs
index 206771c..f3a484b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,6 @@
 #![allow(dead_code)]
+// quic_sea_verif enables the hooks of the verification harness
+#![allow(unexpected_cfgs)]
 mod connection;
 mod error;
 mod frame;
@@ -9,5 +11,7 @@ mod routing;
 mod tests;
 mod transport_parameters;
 mod utils;
+#[cfg(quic_sea_verif)]
+pub mod verif;
 mod version;
 pub use interface::*;
diff --git a/src/packet.rs b/src/packet.rs
index 062188f..283f34a 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -3,6 +3,9 @@ use crate::error::{self, Error};
 use crate::frame::{deserialize_frames, serialize_frames, Frame};
 use crate::utils::{self, prelude::*, var_bytes_from_stream, var_u160_from_stream};
 
+#[cfg(quic_sea_verif)]
+pub mod verif;
+
 const VERSION_NEGOTIATION_VERSION_VALUE: u32 = 0;
 
 #[derive(Debug, Clone)]
diff --git a/src/packet/verif.rs b/src/packet/verif.rs
new file mode 100644
index 0000000..c35e069
--- /dev/null
+++ b/src/packet/verif.rs
@@ -0,0 +1,156 @@
+//! Verification hooks: packets and headers to plain values
+use super::*;
+use crate::verif::Rec;
+
+#[derive(Debug, Clone)]
+pub struct HeaderView {
+    /// header as written back by this library
+    pub bytes: Vec<u8>,
+    pub packet_type: String,
+    pub is_long: bool,
+    pub version: u32,
+    pub dcid_len: u8,
+    pub dcid: [u8; 20],
+    pub scid_len: u8,
+    pub scid: [u8; 20],
+}
+
+#[derive(Debug, Clone)]
+pub struct PacketView {
+    pub kind: &'static str,
+    pub header: HeaderView,
+    pub token: Vec<u8>,
+    pub packet_number: u64,
+    pub packet_number_bytes: Vec<u8>,
+    pub frames: Vec<Rec>,
+    pub versions: Vec<u32>,
+}
+
+pub fn long_header_view(x: &LongPacketHeader) -> HeaderView {
+    HeaderView {
+        bytes: x.to_bytes(),
+        packet_type: format!("{:?}", x.packet_type()),
+        is_long: true,
+        version: x.version,
+        dcid_len: x.destination_connection_id_length,
+        dcid: x.destination_connection_id.to_bytes(),
+        scid_len: x.source_connection_id_length,
+        scid: x.source_connection_id.to_bytes(),
+    }
+}
+
+pub fn short_header_view(x: &ShortPacketHeader) -> HeaderView {
+    HeaderView {
+        bytes: x.to_bytes(),
+        packet_type: format!("{:?}", x.packet_type()),
+        is_long: false,
+        version: 0,
+        dcid_len: 8,
+        dcid: x.destination_connection_id.to_bytes(),
+        scid_len: 0,
+        scid: [0u8; 20],
+    }
+}
+
+pub fn header_view(x: &PacketHeader) -> HeaderView {
+    let mut rv = match x {
+        PacketHeader::Long(x) => long_header_view(x),
+        PacketHeader::Short(x) => short_header_view(x),
+    };
+    rv.packet_type = format!("{:?}", x.get_packet_type());
+    rv.dcid = x.get_destination_id().to_bytes();
+    rv.dcid_len = x.get_destination_id_length();
+    rv
+}
+
+pub fn initial_view(x: &PacketInitial) -> PacketView {
+    PacketView {
+        kind: "initial",
+        header: long_header_view(&x.header),
+        token: x.token.clone(),
+        packet_number: x.packet_number,
+        packet_number_bytes: x.packet_number_bytes.clone(),
+        frames: x.packet_payload.iter().map(frame_view).collect(),
+        versions: vec![],
+    }
+}
+
+pub fn handshake_view(x: &PacketHandshake) -> PacketView {
+    PacketView {
+        kind: "handshake",
+        header: long_header_view(&x.header),
+        token: vec![],
+        packet_number: x.packet_number,
+        packet_number_bytes: x.packet_number_bytes.clone(),
+        frames: x.packet_payload.iter().map(frame_view).collect(),
+        versions: vec![],
+    }
+}
+
+fn frame_view(x: &Frame) -> Rec {
+    crate::frame::verif::view(x)
+}
+
+pub fn view(packet: &Packet) -> PacketView {
+    match packet {
+        Packet::Initial(x) => initial_view(x),
+        Packet::Handshake(x) => handshake_view(x),
+        Packet::ZeroRtt(x) => PacketView {
+            kind: "zerortt",
+            header: long_header_view(&x.header),
+            token: vec![],
+            packet_number: x.packet_number,
+            packet_number_bytes: x.packet_number_bytes.clone(),
+            frames: x.packet_payload.iter().map(frame_view).collect(),
+            versions: vec![],
+        },
+        Packet::OneRtt(x) => PacketView {
+            kind: "onertt",
+            header: short_header_view(&x.header),
+            token: vec![],
+            packet_number: x.packet_number,
+            packet_number_bytes: x.packet_number_bytes.clone(),
+            frames: x.packet_payload.iter().map(frame_view).collect(),
+            versions: vec![],
+        },
+        Packet::VersionNegotiation(x) => PacketView {
+            kind: "vn",
+            header: long_header_view(&x.header),
+            token: vec![],
+            packet_number: 0,
+            packet_number_bytes: vec![],
+            frames: vec![],
+            versions: x.supported_versions.clone(),
+        },
+        Packet::Retry(x) => PacketView {
+            kind: "retry",
+            header: HeaderView {
+                bytes: vec![],
+                packet_type: "Retry".to_string(),
+                is_long: true,
+                version: x.version,
+                dcid_len: x.destination_connection_id_length,
+                dcid: x.destination_connection_id.to_bytes(),
+                scid_len: x.source_connection_id_length,
+                scid: x.source_connection_id.to_bytes(),
+            },
+            token: x.retry_token.clone(),
+            packet_number: 0,
+            packet_number_bytes: vec![],
+            frames: vec![],
+            versions: vec![],
+        },
+    }
+}
+
+pub fn serialize_initial(x: &PacketInitial, connection: &Connection) -> error::Result<Vec<u8>> {
+    x.serialize(connection)
+}
+
+pub fn serialize_handshake(x: &PacketHandshake, connection: &Connection) -> error::Result<Vec<u8>> {
+    x.serialize(connection)
+}
+
+pub fn mask_packet_number(pn_bytes: &mut [u8], mask: &[u8; 5]) -> error::Result<()> {
+    xor_pn_protection(pn_bytes, mask)
+}
diff --git a/src/quictls/mod.rs b/src/quictls/mod.rs
index 3fd1d88..552d2e7 100644
--- a/src/quictls/mod.rs
+++ b/src/quictls/mod.rs
@@ -1,4 +1,6 @@
 mod cipher_suite;
 mod secrets;
 pub mod utils;
-pub use secrets::Secrets;
\ No newline at end of file
+pub use secrets::Secrets;
+#[cfg(quic_sea_verif)]
+pub use secrets::verif;
diff --git a/src/quictls/secrets.rs b/src/quictls/secrets.rs
index 20ea898..dbcd3d2 100644
--- a/src/quictls/secrets.rs
+++ b/src/quictls/secrets.rs
@@ -3,6 +3,9 @@ use super::cipher_suite::{self, QuicTlsCipherSuite};
 use crate::error;
 use crate::version::Version;
 
+#[cfg(quic_sea_verif)]
+pub mod verif;
+
 const SERVER_INITIAL_SECRET_LABEL: &'static [u8; 9] = b"server in";
 const CLIENT_INITIAL_SECRET_LABEL: &'static [u8; 9] = b"client in";
 const HEADER_PROTECTION_LABEL: &'static [u8; 7] = b"quic hp";
diff --git a/src/quictls/secrets/verif.rs b/src/quictls/secrets/verif.rs
new file mode 100644
index 0000000..8bea525
--- /dev/null
+++ b/src/quictls/secrets/verif.rs
@@ -0,0 +1,11 @@
+//! Verification hooks: key material
+use super::*;
+
+pub fn from_secret(secret: &[u8]) -> error::Result<Secrets> {
+    Secrets::from_secret(&cipher_suite::TLS13_AES_128_GCM_SHA256, secret)
+}
+
+/// key, iv, header protection key
+pub fn material(x: &Secrets) -> (Vec<u8>, Option<Vec<u8>>, Vec<u8>) {
+    (x.key.clone(), x.iv.clone(), x.hp.clone())
+}
diff --git a/src/quictls/utils.rs b/src/quictls/utils.rs
index ec02c80..664381d 100644
--- a/src/quictls/utils.rs
+++ b/src/quictls/utils.rs
@@ -1,6 +1,10 @@
 use openssl::rand::rand_bytes;
 
 pub fn get_connection_id() -> u64 {
+    #[cfg(quic_sea_verif)]
+    if let Some(x) = crate::verif::scripted_connection_id() {
+        return x;
+    }
     let mut buff = [0u8; 8];
     rand_bytes(&mut buff).unwrap();
     u64::from_be_bytes(buff)
diff --git a/src/routing.rs b/src/routing.rs
index 3a74ce5..6cc00f4 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -9,6 +9,9 @@ use std::net::{SocketAddr, ToSocketAddrs, UdpSocket};
 use std::sync::mpsc::{channel, Receiver, Sender};
 use std::sync::{Mutex, RwLock};
 
+#[cfg(quic_sea_verif)]
+pub mod verif;
+
 #[derive(Debug)]
 pub(crate) struct InternalDatagram {
     pub data: Vec<u8>,
diff --git a/src/routing/verif.rs b/src/routing/verif.rs
new file mode 100644
index 0000000..fcb1860
--- /dev/null
+++ b/src/routing/verif.rs
@@ -0,0 +1,67 @@
+//! Verification hooks: connection table and queues of a socket
+use super::*;
+use crate::packet::verif::PacketView;
+
+/// What can be observed of a live connection
+#[derive(Debug, Clone)]
+pub struct ConnectionView {
+    pub key: [u8; 20],
+    pub dcid: ([u8; 20], usize),
+    pub scid: Option<([u8; 20], usize)>,
+    /// key material used to send and to receive Initial packets
+    pub local: Option<(Vec<u8>, Option<Vec<u8>>, Vec<u8>)>,
+    pub remote: Option<(Vec<u8>, Option<Vec<u8>>, Vec<u8>)>,
+}
+
+impl InternalQuicSocket {
+    pub fn verif_local_addr(&self) -> SocketAddr {
+        self.socket.lock().unwrap().local_addr().unwrap()
+    }
+    pub fn verif_set_read_timeout(&self, timeout: std::time::Duration) {
+        let socket = self.socket.lock().unwrap();
+        socket.set_read_timeout(Some(timeout)).unwrap();
+    }
+    pub fn verif_connections(&self) -> Vec<ConnectionView> {
+        use crate::connection::PacketNumberSpace::Initial;
+        let material = |x: Option<&quictls::Secrets>| x.map(quictls::verif::material);
+        self.streams
+            .read()
+            .unwrap()
+            .iter()
+            .map(|(key, stream)| {
+                let connection = stream.connection.read().unwrap();
+                let (dcid, scid) = connection.verif_ids();
+                ConnectionView {
+                    key: key.to_bytes(),
+                    dcid: (dcid.0.to_bytes(), dcid.1),
+                    scid: scid.map(|x| (x.0.to_bytes(), x.1)),
+                    local: material(connection.verif_local_secrets(Initial)),
+                    remote: material(connection.verif_remote_secrets(Initial)),
+                }
+            })
+            .collect()
+    }
+    /// Takes all queued datagrams of a connection
+    pub fn verif_drain(&self, key: U160) -> Option<Vec<(Vec<u8>, SocketAddr)>> {
+        let streams = self.streams.read().unwrap();
+        let stream = streams.get(&key)?;
+        Some(
+            stream
+                .receiver
+                .try_iter()
+                .map(|x| (x.data, x.addr))
+                .collect(),
+        )
+    }
+    pub fn verif_decode(&self, data: &[u8], addr: SocketAddr) -> error::Result<Vec<PacketView>> {
+        let datagram = InternalDatagram {
+            data: data.to_vec(),
+            addr,
+        };
+        Ok(self
+            .packets_from_datagram(&datagram)?
+            .iter()
+            .map(crate::packet::verif::view)
+            .collect())
+    }
+}
diff --git a/src/transport_parameters.rs b/src/transport_parameters.rs
index 36e08f0..61cb6c6 100644
--- a/src/transport_parameters.rs
+++ b/src/transport_parameters.rs
@@ -2,6 +2,9 @@ use crate::error;
 use crate::utils;
 use std::net::{Ipv4Addr, Ipv6Addr};
 
+#[cfg(quic_sea_verif)]
+pub mod verif;
+
 pub struct PreferredAddress {
     ipv4_address: Ipv4Addr,
     ipv4_port: u16,
diff --git a/src/transport_parameters/verif.rs b/src/transport_parameters/verif.rs
new file mode 100644
index 0000000..ccc48ab
--- /dev/null
+++ b/src/transport_parameters/verif.rs
@@ -0,0 +1,44 @@
+//! Verification hooks: transport parameters from plain records
+use super::*;
+use crate::verif::Rec;
+
+fn array<const N: usize>(bytes: Vec<u8>) -> [u8; N] {
+    let mut rv = [0u8; N];
+    rv.clone_from_slice(&bytes[..]);
+    rv
+}
+
+pub fn build(r: &Rec) -> TransportParameter {
+    use TransportParameter::*;
+    match &r.kind[..] {
+        "original_destination_connection_id" => OriginalDestinationConnectionId(r.bytes("data")),
+        "max_idle_timeout" => MaxIdleTimeout(r.int("v")),
+        "stateless_reset_token" => StatelessResetToken(array(r.bytes("data"))),
+        "max_udp_payload_size" => MaxUdpPayloadSize(r.int("v")),
+        "initial_max_data" => InitialMaxData(r.int("v")),
+        "initial_max_stream_data_bidi_local" => InitialMaxStreamDataBidiLocal(r.int("v")),
+        "initial_max_stream_data_bidi_remote" => InitialMaxStreamDataBidiRemote(r.int("v")),
+        "initial_max_stream_data_uni" => InitialMaxStreamDataUni(r.int("v")),
+        "initial_max_streams_bidi" => InitialMaxStreamsBidi(r.int("v")),
+        "initial_max_streams_uni" => InitialMaxStreamsUni(r.int("v")),
+        "ack_delay_exponent" => AckDelayExponent(r.int("v")),
+        "max_ack_delay" => MaxAckDelay(r.int("v")),
+        "disable_active_migration" => DisableActiveMigration,
+        "preferred_address" => PreferredAddress(super::PreferredAddress {
+            ipv4_address: Ipv4Addr::from(array::<4>(r.bytes("ip4"))),
+            ipv4_port: r.int("port4") as u16,
+            ipv6_address: Ipv6Addr::from(array::<16>(r.bytes("ip6"))),
+            ipv6_port: r.int("port6") as u16,
+            connection_id: r.bytes("cid"),
+            stateless_reset_token: array(r.bytes("token")),
+        }),
+        "active_connection_id_limit" => ActiveConnectionIdLimit(r.int("v")),
+        "initial_source_connection_id" => InitialSourceConnectionId(r.bytes("data")),
+        "retry_source_connection_id" => RetrySourceConnectionId(r.bytes("data")),
+        x => panic!("verif: unknown transport parameter {}", x),
+    }
+}
+
+pub fn serialize(r: &Rec) -> error::Result<Vec<u8>> {
+    build(r).serialize()
+}
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..fdc6933
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,103 @@
+//! Hooks for the external verification harness, only compiled with
+//! `--cfg quic_sea_verif`. Nothing here changes the behaviour of the library: it
+//! re-exports internals, projects them to plain values and builds them from plain
+//! values.
+use std::cell::RefCell;
+use std::collections::VecDeque;
+
+pub use crate::connection::verif as connection;
+pub use crate::connection::{Connection, PacketNumberSpace};
+pub use crate::error::Error;
+pub use crate::frame::verif as frame;
+pub use crate::frame::{deserialize_frames, serialize_frames, Frame};
+pub use crate::interface::verif as interface;
+pub use crate::packet::verif as packet;
+pub use crate::packet::{
+    decode_packets, next_header_from_stream, LongPacketHeader, Packet, PacketHandshake,
+    PacketHeader, PacketInitial, PacketVersionNegotiation, ShortPacketHeader,
+};
+pub use crate::quictls::verif as secrets;
+pub use crate::quictls::Secrets;
+pub use crate::transport_parameters::verif as transport_parameters;
+pub use crate::utils::{
+    decode_var_int, encode_var_int, make_result_stream, var_int_from_stream,
+    var_int_with_bytes_from_stream, U160,
+};
+pub use crate::version::Version;
+
+/// Plain value of a field
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub enum Val {
+    /// integer
+    U(u64),
+    /// byte string
+    B(Vec<u8>),
+    /// flag
+    F(bool),
+    /// list of integers
+    L(Vec<u64>),
+}
+
+/// Plain record: kind and named fields
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub struct Rec {
+    pub kind: String,
+    pub fields: Vec<(String, Val)>,
+}
+
+impl Rec {
+    pub fn new(kind: &str, fields: Vec<(&str, Val)>) -> Self {
+        Self {
+            kind: kind.to_string(),
+            fields: fields
+                .into_iter()
+                .map(|(a, b)| (a.to_string(), b))
+                .collect(),
+        }
+    }
+    fn get(&self, name: &str) -> &Val {
+        &self.fields.iter().find(|x| x.0 == name).unwrap().1
+    }
+    pub fn int(&self, name: &str) -> u64 {
+        match self.get(name) {
+            Val::U(x) => *x,
+            _ => panic!("verif: field {} is not an integer", name),
+        }
+    }
+    pub fn bytes(&self, name: &str) -> Vec<u8> {
+        match self.get(name) {
+            Val::B(x) => x.clone(),
+            _ => panic!("verif: field {} is not a byte string", name),
+        }
+    }
+    pub fn flag(&self, name: &str) -> bool {
+        match self.get(name) {
+            Val::F(x) => *x,
+            _ => panic!("verif: field {} is not a flag", name),
+        }
+    }
+    pub fn list(&self, name: &str) -> Vec<u64> {
+        match self.get(name) {
+            Val::L(x) => x.clone(),
+            _ => panic!("verif: field {} is not a list", name),
+        }
+    }
+}
+
+/// U160 holding the given (at most 20) bytes
+pub fn u160(bytes: &[u8]) -> U160 {
+    crate::utils::var_u160_from_stream(&mut make_result_stream(bytes), bytes.len() as u8).unwrap()
+}
+
+thread_local! {
+    static SCRIPTED_IDS: RefCell<VecDeque<u64>> = RefCell::new(VecDeque::new());
+}
+
+/// Values the random source of connection ids returns next on this thread
+pub fn script_connection_ids(ids: &[u64]) {
+    SCRIPTED_IDS.with(|x| *x.borrow_mut() = ids.iter().cloned().collect());
+}
+
+pub(crate) fn scripted_connection_id() -> Option<u64> {
+    SCRIPTED_IDS.with(|x| x.borrow_mut().pop_front())
+}
-- 
2.43.0


From 660d0ca22b658ad8cb4842774b2cac42e3a79359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:19 +0000
Subject: [PATCH 21/23] fix: refuse a preferred address connection id that does
 not fit its length field

---
 src/transport_parameters.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/transport_parameters.rs b/src/transport_parameters.rs
index 61cb6c6..bfd4c62 100644
--- a/src/transport_parameters.rs
+++ b/src/transport_parameters.rs
@@ -15,8 +15,13 @@ pub struct PreferredAddress {
 }
 
 impl PreferredAddress {
-    fn to_bytes(&self) -> Vec<u8> {
-        [
+    fn to_bytes(&self) -> error::Result<Vec<u8>> {
+        if self.connection_id.len() > 20 {
+            return Err(error::Error::InternalError(
+                "invalid preferred address connection id length",
+            ));
+        }
+        Ok([
             &self.ipv4_address.octets()[..],
             &self.ipv4_port.to_be_bytes()[..],
             &self.ipv6_address.octets()[..],
@@ -25,7 +30,7 @@ impl PreferredAddress {
             &self.connection_id[..],
             &self.stateless_reset_token[..],
         ]
-        .concat()
+        .concat())
     }
 }
 
@@ -87,7 +92,7 @@ impl TransportParameter {
             Self::AckDelayExponent(x) => utils::encode_var_int(*x)?,
             Self::MaxAckDelay(x) => utils::encode_var_int(*x)?,
             Self::DisableActiveMigration => vec![],
-            Self::PreferredAddress(x) => x.to_bytes(),
+            Self::PreferredAddress(x) => x.to_bytes()?,
             Self::ActiveConnectionIdLimit(x) => utils::encode_var_int(*x)?,
             Self::InitialSourceConnectionId(x) => x.clone(),
             Self::RetrySourceConnectionId(x) => x.clone(),
-- 
2.43.0


From 6e200cd91e4b0c1b09714bf6878575621d253d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:11 +0000
Subject: [PATCH 22/23] verification hooks: a socket that logs its traffic

---
 src/interface/verif.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/interface/verif.rs b/src/interface/verif.rs
index 0ef3f96..9c3abaf 100644
--- a/src/interface/verif.rs
+++ b/src/interface/verif.rs
@@ -16,6 +16,15 @@ pub fn handle_id(stream: &QuicStream) -> U160 {
     stream.connection_id
 }
 
+/// A socket that logs its traffic
+pub fn bind_logging<A: ToSocketAddrs>(addresses: A) -> std::io::Result<QuicSocket> {
+    let mut socket = InternalQuicSocket::bind(addresses)?;
+    socket.set_log_traffic(true);
+    Ok(QuicSocket {
+        socket: Arc::new(socket),
+    })
+}
+
 pub fn local_addr(socket: &QuicSocket) -> SocketAddr {
     socket.socket.verif_local_addr()
 }
-- 
2.43.0


From 44196e53528ab6db9c6098a45a707d0ef9c18b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:01 +0000
Subject: [PATCH 23/23] verification hooks: fields and key derivation, optional
 groups

---
 src/interface.rs             |  2 +-
 src/quictls/secrets/verif.rs | 19 +++++++++++++++++++
 src/routing.rs               |  2 +-
 src/transport_parameters.rs  |  2 +-
 src/verif.rs                 |  8 ++++++++
 5 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/interface.rs b/src/interface.rs
index 6a0a050..8eae087 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -3,7 +3,7 @@ use crate::utils::U160;
 use std::net::ToSocketAddrs;
 use std::sync::Arc;
 
-#[cfg(quic_sea_verif)]
+#[cfg(all(quic_sea_verif, not(quic_sea_verif = "no_routing")))]
 pub mod verif;
 
 #[derive(Debug)]
diff --git a/src/quictls/secrets/verif.rs b/src/quictls/secrets/verif.rs
index 8bea525..267087b 100644
--- a/src/quictls/secrets/verif.rs
+++ b/src/quictls/secrets/verif.rs
@@ -9,3 +9,22 @@ pub fn from_secret(secret: &[u8]) -> error::Result<Secrets> {
 pub fn material(x: &Secrets) -> (Vec<u8>, Option<Vec<u8>>, Vec<u8>) {
     (x.key.clone(), x.iv.clone(), x.hp.clone())
 }
+
+/// HKDF-Extract of the implemented cipher suite
+#[cfg(not(quic_sea_verif = "no_fields"))]
+pub fn extract(salt: Option<&[u8]>, ikm: &[u8]) -> Vec<u8> {
+    (cipher_suite::TLS13_AES_128_GCM_SHA256.hkdf_extract)(salt, ikm)
+}
+
+/// HKDF-Expand-Label of the implemented cipher suite
+#[cfg(not(quic_sea_verif = "no_fields"))]
+pub fn expand_label(
+    secret: &[u8],
+    label: &[u8],
+    context: &[u8],
+    n: usize,
+) -> error::Result<Vec<u8>> {
+    let mut rv = vec![0u8; n];
+    (cipher_suite::TLS13_AES_128_GCM_SHA256.hkdf_expand_label)(secret, label, context, &mut rv)?;
+    Ok(rv)
+}
diff --git a/src/routing.rs b/src/routing.rs
index 6cc00f4..707f0d0 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -9,7 +9,7 @@ use std::net::{SocketAddr, ToSocketAddrs, UdpSocket};
 use std::sync::mpsc::{channel, Receiver, Sender};
 use std::sync::{Mutex, RwLock};
 
-#[cfg(quic_sea_verif)]
+#[cfg(all(quic_sea_verif, not(quic_sea_verif = "no_routing")))]
 pub mod verif;
 
 #[derive(Debug)]
diff --git a/src/transport_parameters.rs b/src/transport_parameters.rs
index bfd4c62..203bfcc 100644
--- a/src/transport_parameters.rs
+++ b/src/transport_parameters.rs
@@ -2,7 +2,7 @@ use crate::error;
 use crate::utils;
 use std::net::{Ipv4Addr, Ipv6Addr};
 
-#[cfg(quic_sea_verif)]
+#[cfg(all(quic_sea_verif, not(quic_sea_verif = "no_params")))]
 pub mod verif;
 
 pub struct PreferredAddress {
diff --git a/src/verif.rs b/src/verif.rs
index fdc6933..a2a0720 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -10,6 +10,7 @@ pub use crate::connection::{Connection, PacketNumberSpace};
 pub use crate::error::Error;
 pub use crate::frame::verif as frame;
 pub use crate::frame::{deserialize_frames, serialize_frames, Frame};
+#[cfg(not(quic_sea_verif = "no_routing"))]
 pub use crate::interface::verif as interface;
 pub use crate::packet::verif as packet;
 pub use crate::packet::{
@@ -18,7 +19,14 @@ pub use crate::packet::{
 };
 pub use crate::quictls::verif as secrets;
 pub use crate::quictls::Secrets;
+#[cfg(not(quic_sea_verif = "no_params"))]
 pub use crate::transport_parameters::verif as transport_parameters;
+#[cfg(not(quic_sea_verif = "no_fields"))]
+pub use crate::utils::{
+    all_bytes_from_stream, decode_bytes, fixed_len_dcid_from_stream,
+    prelude::{DecodeFromBytes, FromDatagram},
+    var_bytes_from_stream, var_u160_from_stream, var_u32_from_stream,
+};
 pub use crate::utils::{
     decode_var_int, encode_var_int, make_result_stream, var_int_from_stream,
     var_int_with_bytes_from_stream, U160,
-- 
2.43.0

