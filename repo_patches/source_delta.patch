From b2b738bc321928b1dd72fcb3f9d69903d3e80d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 01/18] fix: reject or accept every handshake reply length
 without panicking

A handshake reply whose trailing payload was shorter than the MAC
underflowed the split, and one longer than the 2048 byte scratch buffer
indexed out of range, so a remote responder could crash the initiator with
any reply of 80..=95 or more than 2128 bytes.
---
 stratumv2/nx-noise/src/state.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index b3c458a..13fe0db 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -221,14 +221,17 @@ impl SymmetricState {
     }
 
     pub(crate) fn decrypt_and_hash(&mut self, in_out: &mut [u8]) -> Result<(), NoiseError> {
-        let mut temp: [u8; 2048] = [0u8; 2048];
-        temp[..in_out.len()].copy_from_slice(in_out);
+        if in_out.len() < MAC_LENGTH {
+            return Err(NoiseError::MissingHsMacError);
+        }
+
+        let temp = in_out.to_vec();
         let (ciphertext, mac) = in_out.split_at_mut(in_out.len() - MAC_LENGTH);
         let mut temp_mac: [u8; MAC_LENGTH] = [0u8; MAC_LENGTH];
         temp_mac.copy_from_slice(mac);
         self.cs
             .decrypt_with_ad(&self.h.as_bytes()[..], ciphertext, &mut temp_mac)?;
-        self.mix_hash(&temp[..in_out.len()]);
+        self.mix_hash(&temp);
         Ok(())
     }
 
-- 
2.43.0


From 65dfca63395680ed1949630dfc3c7eff4769fe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:00 +0000
Subject: [PATCH 02/18] fix: check the second handshake message's length before
 using the state

A buffer too short for the message was rejected only after the ephemeral
key had been mixed into the handshake hash, so retrying with a large enough
buffer produced a handshake that the other side could never complete.
---
 stratumv2/nx-noise/src/state.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index 13fe0db..af2cb54 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -332,7 +332,10 @@ impl HandshakeState {
         &mut self,
         in_out: &mut [u8],
     ) -> Result<(Hash, CipherState, CipherState), NoiseError> {
-        if in_out.len() < DHLEN {
+        // The whole message must fit: e, the encrypted s and the payload's MAC.
+        // Checked up front, so that a rejected buffer leaves the handshake
+        // state as it was.
+        if in_out.len() < DHLEN + DHLEN + MAC_LENGTH + MAC_LENGTH {
             return Err(NoiseError::MissingneError);
         }
         if self.e.is_empty() {
@@ -344,12 +347,6 @@ impl HandshakeState {
         /* No PSK, so skipping mixKey */
         self.ss.mix_key(&self.e.dh(&self.re.as_bytes()));
 
-        // This check was added to prevent an overflow bug found in fuzz testing.
-        // info: https://github.com/ccdle12/rust-stratum-v2/issues/190
-        if in_out.len() < DHLEN + MAC_LENGTH {
-            return Err(NoiseError::MissingneError);
-        }
-
         let (ns, in_out) = in_out.split_at_mut(DHLEN + MAC_LENGTH);
         ns[..DHLEN].copy_from_slice(&self.s.get_public_key().as_bytes()[..]);
         self.ss.encrypt_and_hash(ns)?;
@@ -382,14 +379,14 @@ impl HandshakeState {
         if in_out.len() < MAC_LENGTH + DHLEN {
             return Err(NoiseError::MissingreError);
         }
+        if in_out.len() < DHLEN + DHLEN + MAC_LENGTH + MAC_LENGTH {
+            return Err(NoiseError::MissingrsError);
+        }
         let (re, in_out) = in_out.split_at_mut(DHLEN);
         self.re = PublicKey::from_bytes(from_slice_hashlen(re))?;
         self.ss.mix_hash(&self.re.as_bytes()[..DHLEN]);
         /* No PSK, so skipping mixKey */
         self.ss.mix_key(&self.e.dh(&self.re.as_bytes()));
-        if in_out.len() < MAC_LENGTH + DHLEN {
-            return Err(NoiseError::MissingrsError);
-        }
         let (rs, in_out) = in_out.split_at_mut(MAC_LENGTH + DHLEN);
         self.ss.decrypt_and_hash(rs)?;
         self.rs = PublicKey::from_bytes(from_slice_hashlen(rs))?;
-- 
2.43.0


From 7387eb06e03376b687e71ed29884b55319c30764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 03/18] fix: return an error for a malformed signature instead
 of panicking

Signature::new panics when the signature's scalar is out of range, so any
received SignatureNoiseMessage with one of the top three bits of its last
byte set crashed the client.
---
 stratumv2/src/noise/types.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stratumv2/src/noise/types.rs b/stratumv2/src/noise/types.rs
index 9d3400d..7393d7d 100644
--- a/stratumv2/src/noise/types.rs
+++ b/stratumv2/src/noise/types.rs
@@ -1,7 +1,6 @@
 use crate::codec::{ByteParser, Deserializable, Serializable};
 use crate::error::Result;
 use rand::rngs::OsRng;
-use std::convert::TryInto;
 use std::io;
 
 /// AuthorityKeyPair is an ed25519_dalek::Keypair used as the Authentication Authority
@@ -61,6 +60,6 @@ impl Serializable for Signature {
 impl Deserializable for Signature {
     fn deserialize(parser: &mut ByteParser) -> Result<Self> {
         let signature_bytes = parser.next_by(64)?;
-        Ok(Signature::new(signature_bytes.try_into()?))
+        Ok(Signature::from_bytes(signature_bytes)?)
     }
 }
-- 
2.43.0


From bfb0310b51572db9f41d7d6a7170b89d8a45efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 04/18] fix: enforce the order of the handshake messages for
 each role

An initiator that received bytes before sending its first message silently
took the responder's part and reported a completed handshake with an all
zero remote key; a session could likewise answer its own message.
---
 stratumv2/nx-noise/src/error.rs        | 2 ++
 stratumv2/nx-noise/src/noisesession.rs | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/stratumv2/nx-noise/src/error.rs b/stratumv2/nx-noise/src/error.rs
index 598db8a..4ffe11a 100644
--- a/stratumv2/nx-noise/src/error.rs
+++ b/stratumv2/nx-noise/src/error.rs
@@ -9,6 +9,7 @@ pub enum NoiseError {
     InvalidPublicKeyError,
     EmptyKeyError,
     InvalidInputError,
+    OutOfTurnError,
     DerivePublicKeyFromEmptyKeyError,
     Hex(hex::FromHexError),
     MissingnsError,
@@ -35,6 +36,7 @@ impl std::fmt::Display for NoiseError {
             NoiseError::InvalidPublicKeyError => write!(f, "Invalid Public Key."),
             NoiseError::EmptyKeyError => write!(f, "Empty Key."),
             NoiseError::InvalidInputError => write!(f, "Invalid input length."),
+            NoiseError::OutOfTurnError => write!(f, "Handshake message out of turn."),
             NoiseError::MissingnsError => write!(f, "Invalid message length."),
             NoiseError::MissingHsMacError => write!(f, "Invalid message length."),
             NoiseError::MissingneError => write!(f, "Invalid message length."),
diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index 6c4cb06..63a1009 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -147,6 +147,10 @@ impl NoiseSession {
         if in_out.len() < MAC_LENGTH || in_out.len() > MAX_MESSAGE {
             return Err(NoiseError::UnsupportedMessageLengthError);
         }
+        // The initiator writes the first handshake message, the responder the second.
+        if self.mc < 2 && self.i != (self.mc == 0) {
+            return Err(NoiseError::OutOfTurnError);
+        }
         if self.mc == 0 {
             self.hs.write_message_a(in_out)?;
         } else if self.mc == 1 {
@@ -181,6 +185,10 @@ impl NoiseSession {
         if in_out.len() < MAC_LENGTH || in_out.len() > MAX_MESSAGE {
             return Err(NoiseError::UnsupportedMessageLengthError);
         }
+        // The responder reads the first handshake message, the initiator the second.
+        if self.mc < 2 && self.i == (self.mc == 0) {
+            return Err(NoiseError::OutOfTurnError);
+        }
 
         if self.mc == 0 {
             self.hs.read_message_a(in_out)?;
-- 
2.43.0


From ffb80a2f142072fd4d4ad5eac3fce0b3b8a10651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 05/18] fix: rekey cs2, not cs1, in rekey_remote_cipherstate

---
 stratumv2/nx-noise/src/noisesession.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index 63a1009..c0c4efc 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -65,7 +65,7 @@ impl NoiseSession {
 
     /// Calls the [Rekey](https://noiseprotocol.org/noise.html#rekey) method for `cs2`
     pub fn rekey_remote_cipherstate(&mut self) {
-        self.cs1.rekey()
+        self.cs2.rekey()
     }
 
     /// `NoiseSession` destructor function.
-- 
2.43.0


From c4334de2a048b2e387df610294b2457220f58469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 06/18] fix: rekey with the nonce that the Noise specification
 prescribes

REKEY(k) encrypts under maxnonce, 2^64-1, which ChaChaPoly encodes as four
zero bytes followed by the little-endian counter, not as twelve 0xff bytes;
a rekeyed session could not talk to another Noise implementation.
---
 stratumv2/nx-noise/src/state.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index af2cb54..b234d86 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -3,11 +3,11 @@
  * ---------------------------------------------------------------- */
 
 use crate::{
-    consts::{DHLEN, EMPTY_HASH, EMPTY_KEY, HASHLEN, MAC_LENGTH, NONCE_LENGTH, ZEROLEN},
+    consts::{DHLEN, EMPTY_HASH, EMPTY_KEY, HASHLEN, MAC_LENGTH, MAX_NONCE, ZEROLEN},
     error::NoiseError,
     prims::{decrypt, encrypt, hash, hash_with_context, hkdf},
     types::{Hash, Key, Keypair, Nonce, Psk, PublicKey},
-    utils::from_slice_hashlen,
+    utils::{from_slice_hashlen, prep_nonce},
 };
 use hacl_star::chacha20poly1305;
 use zeroize::Zeroize;
@@ -98,7 +98,7 @@ impl CipherState {
     pub(crate) fn rekey(&mut self) {
         let mut in_out = EMPTY_KEY;
         chacha20poly1305::key(&self.k.as_bytes())
-            .nonce(&[0xFFu8; NONCE_LENGTH])
+            .nonce(&prep_nonce(MAX_NONCE))
             .encrypt(&ZEROLEN[..], &mut in_out[..], &mut [0u8; 16]);
         self.k.clear();
         self.k = Key::from_bytes(in_out);
-- 
2.43.0


From fadd9e8905f73641d6ef6a26b44a1628c542ba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 07/18] fix: clear the MAC of a received transport message as
 documented

recv_message documents that the last 16 bytes of the buffer are zero after
a transport message was decrypted, but only a local copy was cleared.
---
 stratumv2/nx-noise/src/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index b234d86..0913d9b 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -118,6 +118,7 @@ impl CipherState {
         let mut temp_mac: [u8; MAC_LENGTH] = [0u8; MAC_LENGTH];
         temp_mac.copy_from_slice(mac);
         self.decrypt_with_ad(&ZEROLEN[..], in_out, &mut temp_mac)?;
+        mac.zeroize();
         temp_mac.zeroize();
         Ok(())
     }
-- 
2.43.0


From 5987e22534c55eab8a96466a3e1c178ed1846c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 08/18] fix: reject every encoding of a low order public key

The forbidden values were compared with the top bit in place although
X25519 masks it, and parsing a key from hex skipped the check altogether,
so keys that force an all zero shared secret were accepted.
---
 stratumv2/nx-noise/src/types.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stratumv2/nx-noise/src/types.rs b/stratumv2/nx-noise/src/types.rs
index 0fe14bf..c0125cf 100644
--- a/stratumv2/nx-noise/src/types.rs
+++ b/stratumv2/nx-noise/src/types.rs
@@ -294,8 +294,12 @@ impl PublicKey {
     }
     /// Instanciates a new `PublicKey` from an array of `DHLEN` bytes.
     pub fn from_bytes(k: [u8; DHLEN]) -> Result<Self, NoiseError> {
+        // X25519 ignores the most significant bit, so a low order point is
+        // forbidden with that bit set too.
+        let mut masked = k;
+        masked[DHLEN - 1] &= 0x7f;
         for i in forbidden_curve_values.iter() {
-            if &k == i {
+            if &k == i || &masked == i {
                 return Err(NoiseError::InvalidPublicKeyError);
             }
         }
@@ -358,7 +362,7 @@ impl std::str::FromStr for PublicKey {
     /// ```
     fn from_str(key: &str) -> Result<Self, NoiseError> {
         let pk = decode_str_32(key)?;
-        Ok(Self::from_hacl_public_key(curve25519::PublicKey(pk)))
+        Self::from_bytes(pk)
     }
 }
 
-- 
2.43.0


From 944a508fcde2f4b1875970358edfdae984bef536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 09/18] fix: write the whole encoding to writers that take part
 of a buffer

Serialization called Write::write once and ignored how much was accepted,
so a writer that makes short writes (a socket, a bounded buffer) silently
lost bytes while the full length was reported as written.
---
 stratumv2/src/codec/frame.rs      |  8 +++++---
 stratumv2/src/noise/types.rs      |  4 ++--
 stratumv2/src/types/bytes.rs      |  2 +-
 stratumv2/src/types/fixed.rs      |  4 ++--
 stratumv2/src/types/primitives.rs | 10 +++++-----
 stratumv2/src/types/strings.rs    |  2 +-
 6 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/stratumv2/src/codec/frame.rs b/stratumv2/src/codec/frame.rs
index b8a16ec..7cc581f 100644
--- a/stratumv2/src/codec/frame.rs
+++ b/stratumv2/src/codec/frame.rs
@@ -42,14 +42,16 @@ impl Serializable for Message {
 
         let message_length = U24::new(self.payload.len() as u32)?;
 
-        Ok([
+        let header_length: usize = [
             extension_type.serialize(writer)?,
             message_type.serialize(writer)?,
             message_length.serialize(writer)?,
-            writer.write(self.payload.as_slice())?,
         ]
         .iter()
-        .sum())
+        .sum();
+        writer.write_all(self.payload.as_slice())?;
+
+        Ok(header_length + self.payload.len())
     }
 }
 
diff --git a/stratumv2/src/noise/types.rs b/stratumv2/src/noise/types.rs
index 7393d7d..1904337 100644
--- a/stratumv2/src/noise/types.rs
+++ b/stratumv2/src/noise/types.rs
@@ -25,7 +25,7 @@ pub type StaticPublicKey = noiseexplorer_nx::types::PublicKey;
 impl Serializable for StaticPublicKey {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let public_key = self.as_bytes();
-        writer.write(&public_key)?;
+        writer.write_all(&public_key)?;
 
         Ok(public_key.len())
     }
@@ -51,7 +51,7 @@ pub type Signature = ed25519_dalek::Signature;
 impl Serializable for Signature {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let public_key = self.to_bytes();
-        writer.write(&public_key)?;
+        writer.write_all(&public_key)?;
 
         Ok(public_key.len())
     }
diff --git a/stratumv2/src/types/bytes.rs b/stratumv2/src/types/bytes.rs
index bc25e76..bb5a8ad 100644
--- a/stratumv2/src/types/bytes.rs
+++ b/stratumv2/src/types/bytes.rs
@@ -76,7 +76,7 @@ macro_rules! impl_sized_B0 {
                 // Write the length header.
                 let header_length = self.length.serialize(writer)?;
                 // Then write the byte buffer.
-                writer.write(self.data.as_slice())?;
+                writer.write_all(self.data.as_slice())?;
 
                 Ok(header_length + self.data.len())
             }
diff --git a/stratumv2/src/types/fixed.rs b/stratumv2/src/types/fixed.rs
index fbdfc79..28d2334 100644
--- a/stratumv2/src/types/fixed.rs
+++ b/stratumv2/src/types/fixed.rs
@@ -77,7 +77,7 @@ impl Deserializable for U24 {
 
 impl Serializable for U24 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write(&self.0.to_le_bytes()[0..3])?;
+        writer.write_all(&self.0.to_le_bytes()[0..3])?;
         Ok(3)
     }
 }
@@ -97,7 +97,7 @@ impl Deserializable for U256 {
 
 impl Serializable for U256 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write(&self.0)?;
+        writer.write_all(&self.0)?;
         Ok(32)
     }
 }
diff --git a/stratumv2/src/types/primitives.rs b/stratumv2/src/types/primitives.rs
index be4f924..a58cb9a 100644
--- a/stratumv2/src/types/primitives.rs
+++ b/stratumv2/src/types/primitives.rs
@@ -7,7 +7,7 @@ use std::io;
 impl Serializable for bool {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = if *self { vec![1u8] } else { vec![0u8] };
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -15,7 +15,7 @@ impl Serializable for bool {
 impl Serializable for u8 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -23,7 +23,7 @@ impl Serializable for u8 {
 impl Serializable for u16 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -31,7 +31,7 @@ impl Serializable for u16 {
 impl Serializable for u32 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
@@ -39,7 +39,7 @@ impl Serializable for u32 {
 impl Serializable for f32 {
     fn serialize<W: io::Write>(&self, writer: &mut W) -> Result<usize> {
         let buffer = self.to_le_bytes();
-        writer.write(&buffer)?;
+        writer.write_all(&buffer)?;
         Ok(buffer.len())
     }
 }
diff --git a/stratumv2/src/types/strings.rs b/stratumv2/src/types/strings.rs
index e9f5378..018559f 100644
--- a/stratumv2/src/types/strings.rs
+++ b/stratumv2/src/types/strings.rs
@@ -74,7 +74,7 @@ macro_rules! impl_sized_STR0 {
                 // Write the length header.
                 let header_length = self.length.serialize(writer)?;
                 // Then write the byte buffer.
-                writer.write(self.data.as_bytes())?;
+                writer.write_all(self.data.as_bytes())?;
 
                 Ok(header_length + self.length as usize)
             }
-- 
2.43.0


From 5ebeff70fa63454682d50f26000b51aa6d539fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 10/18] fix: refuse to frame payloads of 4 GiB and more

The payload length was truncated to 32 bits before it was checked against
the 24 bit limit, so a payload of 2^32 + n bytes was framed as n bytes.
---
 stratumv2/src/codec/frame.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stratumv2/src/codec/frame.rs b/stratumv2/src/codec/frame.rs
index 7cc581f..9985212 100644
--- a/stratumv2/src/codec/frame.rs
+++ b/stratumv2/src/codec/frame.rs
@@ -1,6 +1,7 @@
 use crate::codec::{serialize, ByteParser, Deserializable, Serializable};
 use crate::error::{Error, Result};
 use crate::types::{MessageType, U24};
+use std::convert::TryFrom;
 use std::io;
 
 /// The CHANNEL_BIT_MASK is used to mask out the MSB to identify if a message
@@ -40,7 +41,7 @@ impl Serializable for Message {
             extension_type |= CHANNEL_BIT_MASK;
         }
 
-        let message_length = U24::new(self.payload.len() as u32)?;
+        let message_length = U24::try_from(self.payload.len())?;
 
         let header_length: usize = [
             extension_type.serialize(writer)?,
-- 
2.43.0


From 88a31d8ff18bdb08577b5afacc3a6b6b8e903f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 11/18] fix: report a parser step past the address space as out
 of bounds

The end of the requested range was computed with an unchecked addition,
which panics in builds with overflow checks.
---
 stratumv2/src/codec/parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/stratumv2/src/codec/parser.rs b/stratumv2/src/codec/parser.rs
index 8c7e7e6..4727279 100644
--- a/stratumv2/src/codec/parser.rs
+++ b/stratumv2/src/codec/parser.rs
@@ -14,14 +14,15 @@ impl<'a> ByteParser<'a> {
     }
 
     pub fn next_by(&mut self, step: usize) -> Result<&'a [u8]> {
-        let offset = self.start + step;
+        let out_of_bounds = || Error::ParseError("out of bounds error".into());
 
-        let b = self.bytes.get(self.start..offset);
-        if b.is_none() {
-            return Err(Error::ParseError("out of bounds error".into()));
-        }
+        let offset = self.start.checked_add(step).ok_or_else(out_of_bounds)?;
+        let b = self
+            .bytes
+            .get(self.start..offset)
+            .ok_or_else(out_of_bounds)?;
 
         self.start = offset;
-        Ok(b.unwrap())
+        Ok(b)
     }
 }
-- 
2.43.0


From bd6002dabf7617603275bfa5780ec4bf32100952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 12/18] fix: return an error for times that do not fit a u32
 timestamp

Times after 2106-02-07 wrapped around to 1970, which turned a far expiry
into a past one and made long expired certificates valid again.
---
 stratumv2/src/types/unix_timestamp.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stratumv2/src/types/unix_timestamp.rs b/stratumv2/src/types/unix_timestamp.rs
index 2c42c5f..d5f995c 100644
--- a/stratumv2/src/types/unix_timestamp.rs
+++ b/stratumv2/src/types/unix_timestamp.rs
@@ -1,11 +1,14 @@
-use crate::error::Result;
+use crate::error::{Error, Result};
+use std::convert::TryFrom;
 use std::time::SystemTime;
 
 /// Convert SystemTime to a Unix timestamp as a u32.
 pub fn system_unix_time_to_u32(time: &SystemTime) -> Result<u32> {
-    Ok(time
-        .duration_since(SystemTime::UNIX_EPOCH)
-        .map(|duration| duration.as_secs() as u32)?)
+    let seconds = time.duration_since(SystemTime::UNIX_EPOCH)?.as_secs();
+
+    u32::try_from(seconds).map_err(|_| {
+        Error::RequirementError("the unix time cannot be represented as a u32".into())
+    })
 }
 
 /// A helper function that returns the current unix time in seconds as a u32.
-- 
2.43.0


From 5d8d1353133a638bcd127b459cfad8b584ab6a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 13/18] fix: reject certificates before their valid_from time

verify() is documented to check the validity of the certificate's time
limits but only looked at not_valid_after.
---
 stratumv2/src/noise/certificate_format.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stratumv2/src/noise/certificate_format.rs b/stratumv2/src/noise/certificate_format.rs
index 9342589..e0175b6 100644
--- a/stratumv2/src/noise/certificate_format.rs
+++ b/stratumv2/src/noise/certificate_format.rs
@@ -43,7 +43,14 @@ impl<'a> CertificateFormat<'a> {
     /// limits and whether the static public key was signed by the AuthorityKeyPair
     /// identifying the Mining Pool.
     pub fn verify(&self) -> Result<()> {
-        if unix_u32_now()? >= self.signature_noise_message.not_valid_after {
+        let now = unix_u32_now()?;
+        if now < self.signature_noise_message.valid_from {
+            return Err(Error::RequirementError(
+                "the signature noise message is not valid yet".into(),
+            ));
+        }
+
+        if now >= self.signature_noise_message.not_valid_after {
             return Err(Error::RequirementError(
                 "the signature noise message is expired".into(),
             ));
-- 
2.43.0


From a7629cca0e56035192646758df9623871385e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 14/18] fix: do not report a NoiseError as its own source

Walking the chain of causes of such an error never ended.
---
 stratumv2/nx-noise/src/error.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stratumv2/nx-noise/src/error.rs b/stratumv2/nx-noise/src/error.rs
index 4ffe11a..0d9012f 100644
--- a/stratumv2/nx-noise/src/error.rs
+++ b/stratumv2/nx-noise/src/error.rs
@@ -49,6 +49,9 @@ impl std::fmt::Display for NoiseError {
 
 impl Error for NoiseError {
     fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
+        match self {
+            NoiseError::Hex(e) => Some(e),
+            _ => None,
+        }
     }
 }
-- 
2.43.0


From 94a8310ae94388cc2a61977ef61fdd13c8e7a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:20 +0000
Subject: [PATCH 15/18] hook: let a verification build move a session's message
 counters (cfg vp_hooks)

---
 stratumv2/nx-noise/src/noisesession.rs | 10 ++++++++++
 stratumv2/nx-noise/src/types.rs        |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index c0c4efc..1aa36ca 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -209,3 +209,13 @@ impl NoiseSession {
         Ok(())
     }
 }
+
+/// Verification hook, compiled only with `--cfg vp_hooks`: moves the message
+/// counters of both directions, so that a run can reach their far end.
+#[cfg(vp_hooks)]
+impl NoiseSession {
+    pub fn vp_set_counters(&mut self, cs1: u64, cs2: u64) {
+        self.cs1.set_nonce(crate::types::Nonce::vp_from_value(cs1));
+        self.cs2.set_nonce(crate::types::Nonce::vp_from_value(cs2));
+    }
+}
diff --git a/stratumv2/nx-noise/src/types.rs b/stratumv2/nx-noise/src/types.rs
index c0125cf..f91b69f 100644
--- a/stratumv2/nx-noise/src/types.rs
+++ b/stratumv2/nx-noise/src/types.rs
@@ -507,3 +507,11 @@ fn public_key_validation_test() {
         panic!("Denied valid Public Key value");
     }
 }
+
+/// Verification hook, compiled only with `--cfg vp_hooks`.
+#[cfg(vp_hooks)]
+impl Nonce {
+    pub(crate) fn vp_from_value(n: u64) -> Self {
+        Self { n }
+    }
+}
-- 
2.43.0


From 89f60dc143ac1d52cf47e9558af5f028be0fb844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:10 +0000
Subject: [PATCH 16/18] fix: leave a cleared cipher state without a key when it
 is rekeyed

---
 stratumv2/nx-noise/src/state.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index 0913d9b..abf5e96 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -96,6 +96,11 @@ impl CipherState {
 
     #[allow(dead_code)]
     pub(crate) fn rekey(&mut self) {
+        // Without this check a cleared cipher state would be given a key that
+        // anyone can compute.
+        if !self.has_key() {
+            return;
+        }
         let mut in_out = EMPTY_KEY;
         chacha20poly1305::key(&self.k.as_bytes())
             .nonce(&prep_nonce(MAX_NONCE))
-- 
2.43.0


From 30624352d95ea791d908fc4fa8ae7ca57ea84533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:04 +0000
Subject: [PATCH 17/18] hook: show generated private keys to a verification
 build (cfg vp_hooks)

---
 stratumv2/nx-noise/src/noisesession.rs | 9 +++++++++
 stratumv2/nx-noise/src/state.rs        | 8 ++++++++
 stratumv2/nx-noise/src/types.rs        | 9 +++++++++
 3 files changed, 26 insertions(+)

diff --git a/stratumv2/nx-noise/src/noisesession.rs b/stratumv2/nx-noise/src/noisesession.rs
index 1aa36ca..f726a4c 100644
--- a/stratumv2/nx-noise/src/noisesession.rs
+++ b/stratumv2/nx-noise/src/noisesession.rs
@@ -219,3 +219,12 @@ impl NoiseSession {
         self.cs2.set_nonce(crate::types::Nonce::vp_from_value(cs2));
     }
 }
+
+/// Verification hook, compiled only with `--cfg vp_hooks`: shows the ephemeral
+/// private key of a session that has not completed its handshake.
+#[cfg(vp_hooks)]
+impl NoiseSession {
+    pub fn vp_ephemeral(&self) -> [u8; 32] {
+        self.hs.vp_ephemeral()
+    }
+}
diff --git a/stratumv2/nx-noise/src/state.rs b/stratumv2/nx-noise/src/state.rs
index abf5e96..8956b32 100644
--- a/stratumv2/nx-noise/src/state.rs
+++ b/stratumv2/nx-noise/src/state.rs
@@ -404,3 +404,11 @@ impl HandshakeState {
         Ok((h, cs1, cs2))
     }
 }
+
+/// Verification hook, compiled only with `--cfg vp_hooks`.
+#[cfg(vp_hooks)]
+impl HandshakeState {
+    pub(crate) fn vp_ephemeral(&self) -> [u8; DHLEN] {
+        self.e.vp_private()
+    }
+}
diff --git a/stratumv2/nx-noise/src/types.rs b/stratumv2/nx-noise/src/types.rs
index f91b69f..f863079 100644
--- a/stratumv2/nx-noise/src/types.rs
+++ b/stratumv2/nx-noise/src/types.rs
@@ -515,3 +515,12 @@ impl Nonce {
         Self { n }
     }
 }
+
+/// Verification hook, compiled only with `--cfg vp_hooks`: shows a generated
+/// private key, so that a run can judge the randomness in it.
+#[cfg(vp_hooks)]
+impl Keypair {
+    pub fn vp_private(&self) -> [u8; DHLEN] {
+        self.private_key.as_bytes()
+    }
+}
-- 
2.43.0


From e4c559b77fb4cf766dea0daf069fdb2221b8d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:31 +0000
Subject: [PATCH 18/18] fix: refuse authority key texts that are too long for a
 key

---
 stratumv2/src/noise/certificate_format.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/stratumv2/src/noise/certificate_format.rs b/stratumv2/src/noise/certificate_format.rs
index e0175b6..d0c544f 100644
--- a/stratumv2/src/noise/certificate_format.rs
+++ b/stratumv2/src/noise/certificate_format.rs
@@ -8,6 +8,9 @@ use ed25519_dalek::Verifier;
 use std::convert::TryInto;
 use std::io;
 
+/// The length of the longest base58 text of a 32 byte public key.
+const MAX_BASE58_KEY_LENGTH: usize = 44;
+
 /// CertificateFormat is used to reconstruct a message to verify a signature
 /// given a [SignatureNoiseMessage](struct.SignatureNoiseMessage.html).
 ///
@@ -27,6 +30,14 @@ impl<'a> CertificateFormat<'a> {
         static_public_key: &'a StaticPublicKey,
         signature_noise_message: &'a SignatureNoiseMessage,
     ) -> Result<CertificateFormat<'a>> {
+        // Decoding base58 takes time quadratic in the length of the text, so refuse
+        // texts that are too long for a key before decoding them.
+        if authority_public_key.len() > MAX_BASE58_KEY_LENGTH {
+            return Err(Error::ParseError(
+                "base58 public key is too long".into(),
+            ));
+        }
+
         // Convert the base58 encoded String into an AuthorityPublicKey object.
         let key_bytes: [u8; 32] = base58::from(authority_public_key)?
             .try_into()
-- 
2.43.0

