From f014778bc6fd39e4755430863d827984f6723d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:08 +0000
Subject: [PATCH 01/29] verif hook: guarded re-export module for external
 checkers (cfg rustbit_verif)

---
 src/main.rs  |  2 ++
 src/verif.rs | 54 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/main.rs b/src/main.rs
index 89febf3..929c2bf 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -5,6 +5,8 @@ mod messages;
 mod peer;
 mod torrent;
 mod tracker;
+#[cfg(rustbit_verif)]
+pub mod verif;
 
 use actors::trackers_interface::TrackersInterfaceActor;
 use chrono::Local;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..81de7b0
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,54 @@
+//! Verification-only view of the crate, compiled only under `--cfg rustbit_verif`: re-exports what
+//! an external checker has to call. No behaviour lives here.
+#![allow(dead_code, unused_imports)]
+
+pub mod bencode {
+    pub use crate::bencode::decode::*;
+    pub use crate::bencode::encode::*;
+    pub use crate::bencode::metainfo::*;
+}
+pub mod torrent {
+    pub use crate::torrent::file::*;
+    pub use crate::torrent::info::*;
+    pub use crate::torrent::magnet::*;
+    pub use crate::torrent::writer::*;
+}
+pub mod messages {
+    pub use crate::messages::bitfield::*;
+    pub use crate::messages::extension::*;
+    pub use crate::messages::handshake::*;
+    pub use crate::messages::request::*;
+    pub use crate::messages::*;
+}
+pub mod peer {
+    pub use crate::peer::manager::*;
+    pub use crate::peer::piece_pool::*;
+    pub use crate::peer::stream::*;
+    pub use crate::peer::*;
+}
+pub mod tracker {
+    pub use crate::tracker::peer_endpoint::*;
+    pub use crate::tracker::*;
+}
+pub mod actors {
+    pub use crate::actors::connection::*;
+    pub use crate::actors::messages::*;
+    pub use crate::actors::torrent::*;
+    pub use crate::actors::tracker::*;
+    pub use crate::actors::trackers_interface::*;
+    pub use crate::actors::writer::*;
+}
+
+use crate::actors::trackers_interface::TrackersInterfaceActor;
+use actix::Addr;
+use actix_web::web;
+
+/// The HTTP API of the client, wired to the given trackers.
+pub fn configure_api(
+    trackers_interface: Addr<TrackersInterfaceActor>,
+) -> impl FnOnce(&mut web::ServiceConfig) {
+    let state = web::Data::new(crate::AppState { trackers_interface });
+    move |cfg| {
+        cfg.app_data(state).service(crate::add_magnet);
+    }
+}
-- 
2.43.0


From ffed81b0112405853894ea11c24d08ba8ac89d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:29 +0000
Subject: [PATCH 02/29] fix: refuse truncated, malformed or too deeply nested
 bencode instead of panicking, looping or running out of stack

---
 src/bencode/decode.rs | 56 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index be59059..7a76403 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -5,9 +5,14 @@ use log::error;
 
 use crate::bencode::metainfo::Metainfo;
 
+// Lists and dictionaries nested deeper than this are refused, so that a hostile input can't exhaust
+// the stack.
+const MAX_DEPTH: usize = 256;
+
 pub struct Decoder {
     current: usize,
     contents: Vec<u8>,
+    depth: usize,
 }
 
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
@@ -20,6 +25,12 @@ pub enum DecoderError {
     NoStringFound(usize),
     #[error("Bad string from bytes conversion at position: {0}")]
     BadStringFromBytes(usize),
+    #[error("Unexpected end of input at position: {0}")]
+    UnexpectedEnd(usize),
+    #[error("Unexpected byte at position: {0}")]
+    UnexpectedByte(usize),
+    #[error("Too many nested elements at position: {0}")]
+    TooDeep(usize),
 }
 
 impl Decoder {
@@ -27,6 +38,7 @@ impl Decoder {
         Decoder {
             current: 0,
             contents: source,
+            depth: 0,
         }
     }
 
@@ -35,13 +47,16 @@ impl Decoder {
         self.current
     }
 
-    fn get_current_byte(&self) -> u8 {
-        self.contents[self.current]
+    fn get_current_byte(&self) -> Result<u8, DecoderError> {
+        self.contents
+            .get(self.current)
+            .copied()
+            .ok_or(DecoderError::UnexpectedEnd(self.current))
     }
 
     fn get_consecutive_digits(&mut self) -> Result<usize, DecoderError> {
         let start = self.current;
-        while self.get_current_byte().is_ascii_digit() {
+        while self.get_current_byte()?.is_ascii_digit() {
             self.advance();
         }
         let end = self.current;
@@ -75,16 +90,21 @@ impl Decoder {
 
         match self.contents.get(self.current) {
             Some(b'e') => self.advance(),
-            _ => self.advance(),
+            _ => return Err(DecoderError::UnexpectedByte(self.current)),
         };
         Ok(Metainfo::Integer(integer))
     }
 
     fn parse_string(&mut self) -> Result<Metainfo, DecoderError> {
         let integer = self.get_consecutive_digits()?;
-        // TODO: Mettere check semicolon
+        if self.get_current_byte()? != b':' {
+            return Err(DecoderError::UnexpectedByte(self.current));
+        }
         self.advance();
 
+        if integer > self.contents.len() - self.current {
+            return Err(DecoderError::UnexpectedEnd(self.contents.len()));
+        }
         let b = &self.contents[self.current..self.current + integer];
         self.current += integer;
         Ok(Metainfo::String(b.to_vec()))
@@ -94,8 +114,8 @@ impl Decoder {
         self.advance();
         let mut list: Vec<Metainfo> = Vec::new();
 
-        while self.get_current_byte() != b'e' {
-            list.push(self.decode()?);
+        while self.get_current_byte()? != b'e' {
+            list.push(self.decode_element()?);
         }
 
         self.advance();
@@ -106,7 +126,7 @@ impl Decoder {
         self.advance();
 
         let mut dictionary = HashMap::new();
-        while self.get_current_byte() != b'e' {
+        while self.get_current_byte()? != b'e' {
             let key = if let Metainfo::String(raw_key) = self.parse_string()? {
                 str::from_utf8(&raw_key)
                     .map_err(|_| DecoderError::BadStringFromBytes(self.current))?
@@ -114,7 +134,7 @@ impl Decoder {
             } else {
                 return Err(DecoderError::NoStringFound(self.current));
             };
-            let value = self.decode()?;
+            let value = self.decode_element()?;
             dictionary.insert(key, value);
         }
 
@@ -122,13 +142,29 @@ impl Decoder {
         Ok(Metainfo::Dictionary(dictionary))
     }
 
+    // Decode an element of a list or of a dictionary, where something has to be found.
+    fn decode_element(&mut self) -> Result<Metainfo, DecoderError> {
+        if self.depth == MAX_DEPTH {
+            return Err(DecoderError::TooDeep(self.current));
+        }
+
+        self.depth += 1;
+        let element = self.decode();
+        self.depth -= 1;
+
+        match element? {
+            Metainfo::Nothing() => Err(DecoderError::UnexpectedByte(self.current)),
+            element => Ok(element),
+        }
+    }
+
     pub fn decode(&mut self) -> Result<Metainfo, DecoderError> {
         let result = match self.contents.get(self.current) {
             None => Metainfo::Nothing(),
             Some(b'i') => self.parse_integer()?,
             Some(b'l') => self.parse_list()?,
             Some(b'd') => self.parse_dictionary()?,
-            Some(b'1'..=b'9') => self.parse_string()?,
+            Some(b'0'..=b'9') => self.parse_string()?,
             Some(_) => Metainfo::Nothing(),
         };
 
-- 
2.43.0


From 7648b8a557159634ec66973a776c3ed33ab11a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:29 +0000
Subject: [PATCH 03/29] fix: bencode text lengths count bytes, not characters

---
 src/bencode/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bencode/encode.rs b/src/bencode/encode.rs
index 4ad8eb4..26ad7e8 100644
--- a/src/bencode/encode.rs
+++ b/src/bencode/encode.rs
@@ -6,7 +6,7 @@ pub trait Encode {
 
 impl Encode for String {
     fn encode(&self) -> Vec<u8> {
-        format!("{}:{}", self.chars().count(), self)
+        format!("{}:{}", self.len(), self)
             .as_bytes()
             .to_vec()
     }
@@ -14,7 +14,7 @@ impl Encode for String {
 
 impl Encode for &str {
     fn encode(&self) -> Vec<u8> {
-        format!("{}:{}", self.chars().count(), self)
+        format!("{}:{}", self.len(), self)
             .as_bytes()
             .to_vec()
     }
-- 
2.43.0


From 95f83ccdef0ed202d68206bac17b2f617a36825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:04 +0000
Subject: [PATCH 04/29] fix: read the btih hash of a magnet wherever it stands,
 decode base32, refuse bad hashes

---
 src/torrent/magnet.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/torrent/magnet.rs b/src/torrent/magnet.rs
index da681f5..b8b892a 100644
--- a/src/torrent/magnet.rs
+++ b/src/torrent/magnet.rs
@@ -10,13 +10,14 @@ pub enum MagnetError {
 }
 
 impl Magnet {
+    // A base32 hash is kept as it was written in the magnet.
     pub fn get_info_hash(&self) -> Vec<u8> {
-        self.info_hash.to_vec()
+        base32_decode(&self.info_hash).unwrap_or_else(|| self.info_hash.to_vec())
     }
 }
 
 fn verify_info_hash(magnet_uri: &[u8]) -> bool {
-    magnet_uri.len() < 60 || &magnet_uri[..8] != "magnet:?".as_bytes()
+    magnet_uri.len() < 52 || &magnet_uri[..8] != "magnet:?".as_bytes()
 }
 
 // Given a string representation of an hex character we obtain the hex byte representation.
@@ -48,12 +49,27 @@ fn hex_decode(info_hash_hex_encoded: &[u8]) -> Vec<u8> {
         .collect::<Vec<u8>>()
 }
 
-fn parse_info_hash(magnet_uri: &[u8]) -> Vec<u8> {
-    if magnet_uri[60] == b'&' {
-        hex_decode(&magnet_uri[20..60])
-    } else {
-        magnet_uri[20..52].to_vec()
+fn base32_decode(info_hash: &[u8]) -> Option<Vec<u8>> {
+    let text = std::str::from_utf8(info_hash).ok()?;
+    if text.len() != 32 || !text.bytes().all(|byte| byte.is_ascii_alphanumeric()) {
+        return None;
+    }
+    base32::decode(base32::Alphabet::RFC4648 { padding: false }, text)
+}
+
+fn parse_info_hash(magnet_uri: &[u8]) -> Option<Vec<u8>> {
+    let topics = magnet_uri[8..]
+        .split(|byte| *byte == b'&')
+        .filter_map(|parameter| parameter.strip_prefix(b"xt=urn:btih:"));
+
+    for topic in topics {
+        if topic.len() == 40 && topic.iter().all(|byte| byte.is_ascii_hexdigit()) {
+            return Some(hex_decode(topic));
+        } else if base32_decode(topic).is_some() {
+            return Some(topic.to_vec());
+        }
     }
+    None
 }
 
 pub fn parse_magnet(magnet_uri: Vec<u8>) -> Result<Magnet, MagnetError> {
@@ -61,7 +77,7 @@ pub fn parse_magnet(magnet_uri: Vec<u8>) -> Result<Magnet, MagnetError> {
         return Err(MagnetError::NoMagnet());
     }
 
-    let info_hash = parse_info_hash(&magnet_uri);
+    let info_hash = parse_info_hash(&magnet_uri).ok_or(MagnetError::NoMagnet())?;
 
     Ok(Magnet { info_hash })
 }
-- 
2.43.0


From 4994fb4af3fc6a2528940707c620b389e7acd115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 05/29] fix: accept torrent metadata from a peer only if it has
 the requested info hash

---
 src/peer/manager.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 6a251be..4521834 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -1,4 +1,5 @@
 use log::{debug, error, info};
+use sha1::{Digest, Sha1};
 
 use crate::messages::{new_handshake, new_interested};
 use crate::peer::Peer;
@@ -17,6 +18,8 @@ pub enum PeerManagerError {
     PeerNotReady(),
     #[error("Unsuccessfull piece download: {0}")]
     PieceDownloadFailure(String),
+    #[error("Unsuccessfull metadata verification")]
+    MetadataVerificationFailure(),
     #[error("Unsuccessfull piece verification")]
     PieceVerificationFailure(),
     #[error(transparent)]
@@ -33,6 +36,9 @@ pub fn get_info(info_hash: &[u8], endpoint: &str) -> Result<Info, PeerManagerErr
 
     init_peer(&mut peer)?;
     let info = Downloadable::Info.download(&mut peer)?;
+    if Sha1::digest(&info).as_slice() != info_hash {
+        return Err(PeerManagerError::MetadataVerificationFailure());
+    }
 
     let info = Info::from_bytes(info)?;
     Ok(info)
-- 
2.43.0


From 12df3f7db26bb9cea69ecc33efb96e9177ac0b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 06/29] fix: download pieces under the torrent's own info hash,
 not one recomputed from the parsed metadata

---
 src/actors/connection.rs | 7 ++++++-
 src/actors/messages.rs   | 1 +
 src/actors/torrent.rs    | 3 +++
 src/peer/manager.rs      | 3 ++-
 src/torrent/info.rs      | 4 ----
 5 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/actors/connection.rs b/src/actors/connection.rs
index 23ecc05..7d2bcef 100644
--- a/src/actors/connection.rs
+++ b/src/actors/connection.rs
@@ -22,7 +22,12 @@ impl Handler<PieceRequested> for ConnectionActor {
     type Result = Result<bool, std::io::Error>;
 
     fn handle(&mut self, msg: PieceRequested, _ctx: &mut Self::Context) -> Self::Result {
-        match download(msg.endpoint.clone(), &msg.info, msg.piece_idx) {
+        match download(
+            msg.endpoint.clone(),
+            &msg.info_hash,
+            &msg.info,
+            msg.piece_idx,
+        ) {
             Ok(piece) => {
                 msg.torrent_actor.do_send(PieceDownloadSuccessfull {
                     endpoint: msg.endpoint.clone(),
diff --git a/src/actors/messages.rs b/src/actors/messages.rs
index 67f2a35..7b934dc 100644
--- a/src/actors/messages.rs
+++ b/src/actors/messages.rs
@@ -53,6 +53,7 @@ pub struct PieceReady {
 #[rtype(result = "Result<bool, std::io::Error>")]
 pub struct PieceRequested {
     pub endpoint: String,
+    pub info_hash: Vec<u8>,
     pub info: Info,
     pub piece_idx: usize,
     pub torrent_actor: Addr<TorrentActor>,
diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 9100ec4..5e090de 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -70,6 +70,7 @@ impl Handler<PieceDownloadSuccessfull> for TorrentActor {
         if let Some(piece_idx) = self.piece_available_pool.as_mut().unwrap().pop() {
             let msg = PieceRequested {
                 piece_idx,
+                info_hash: self.info_hash.clone(),
                 info: self.info.as_ref().unwrap().clone(),
                 endpoint,
                 torrent_actor: ctx.address(),
@@ -98,6 +99,7 @@ impl Handler<PieceDownloadFailed> for TorrentActor {
         if let Some(piece_idx) = self.piece_available_pool.as_mut().unwrap().pop() {
             let msg = PieceRequested {
                 piece_idx,
+                info_hash: self.info_hash.clone(),
                 info: self.info.as_ref().unwrap().clone(),
                 endpoint,
                 torrent_actor: ctx.address(),
@@ -136,6 +138,7 @@ impl Handler<PeerFound> for TorrentActor {
                         if let Some(piece_idx) = self.piece_available_pool.as_mut().unwrap().pop() {
                             let msg = PieceRequested {
                                 piece_idx,
+                                info_hash: self.info_hash.clone(),
                                 info: info.clone(),
                                 endpoint,
                                 torrent_actor: ctx.address(),
diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 4521834..0d92b24 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -62,11 +62,12 @@ impl Context {
 
 pub fn download(
     endpoint: String,
+    info_hash: &[u8],
     info: &Info,
     piece_idx: usize,
 ) -> Result<Vec<u8>, PeerManagerError> {
     let stream = StreamInterface::connect(&endpoint, false)?;
-    let mut peer = Peer::new(stream, &info.compute_info_hash());
+    let mut peer = Peer::new(stream, info_hash);
     init_peer(&mut peer)?;
 
     let piece_length = info.get_piece_length();
diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 9e9c3a3..d39a248 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -121,10 +121,6 @@ impl Info {
             }
         }
     }
-
-    pub fn compute_info_hash(&self) -> Vec<u8> {
-        Sha1::digest(self.encode()).as_slice().to_owned()
-    }
 }
 
 impl Encode for Info {
-- 
2.43.0


From 7be6f8acc995b9c63038ccf006d6979987c5580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 07/29] fix: read whole frames however they are split, skip
 keep alives, refuse oversized frames

---
 src/peer/stream.rs | 97 +++++++++++++++++++++++++++++++---------------
 1 file changed, 66 insertions(+), 31 deletions(-)

diff --git a/src/peer/stream.rs b/src/peer/stream.rs
index cf64c2d..8c2d068 100644
--- a/src/peer/stream.rs
+++ b/src/peer/stream.rs
@@ -1,13 +1,18 @@
 use std::io;
 use std::io::prelude::*;
 use std::net::TcpStream;
-use std::time::Duration;
-use std::{thread, time, vec};
+use std::time::{Duration, Instant};
+use std::vec;
 
 use log::error;
 
 use crate::common::mock_stream::MockStream;
 
+// How long a started frame may take to arrive completely.
+const FRAME_TIMEOUT: Duration = Duration::from_secs(10);
+// No message this client deals with comes near this size.
+const MAX_FRAME_LENGTH: u32 = 2 * 1024 * 1024;
+
 #[derive(Debug)]
 pub enum StreamInterface {
     #[allow(dead_code)]
@@ -80,6 +85,11 @@ impl StreamInterface {
             StreamInterface::Nothing() => Ok(()),
         }
     }
+
+    // Once a frame is lost the rest of the stream means nothing.
+    fn disconnect(&mut self) {
+        *self = StreamInterface::Nothing();
+    }
 }
 
 fn has_messages(stream: &mut StreamInterface) -> bool {
@@ -92,10 +102,35 @@ fn has_messages(stream: &mut StreamInterface) -> bool {
     }
 }
 
+#[cfg(test)]
 fn peek_and_read(stream: &mut StreamInterface, body: &mut [u8], length: usize) -> bool {
     stream.peek(body).unwrap_or(0) == length && stream.read(body).unwrap_or(0) == length
 }
 
+// Fills the whole buffer, however the bytes arrive, unless the peer goes away or takes too long.
+fn read_fully(stream: &mut StreamInterface, buffer: &mut [u8], deadline: Instant) -> bool {
+    let mut filled = 0;
+    while filled < buffer.len() {
+        if Instant::now() > deadline {
+            return false;
+        }
+        match stream.read(&mut buffer[filled..]) {
+            Ok(0) => return false,
+            Ok(size) => filled += size,
+            Err(err) if is_retryable(&err) => (),
+            Err(_) => return false,
+        }
+    }
+    true
+}
+
+fn is_retryable(err: &io::Error) -> bool {
+    matches!(
+        err.kind(),
+        io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut | io::ErrorKind::Interrupted
+    )
+}
+
 // Here we should try to return a Result to signal the presence of errors
 pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
     if stream
@@ -105,42 +140,42 @@ pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
         return None;
     }
 
-    if !has_messages(stream) {
-        return None;
-    }
-
-    let mut buffer: [u8; 68] = [0x00; 68];
-    if stream.peek(&mut buffer).ok() == Some(68) && buffer[0] == 0x13 {
-        if stream.read(&mut buffer).is_err() {
+    let deadline = Instant::now() + FRAME_TIMEOUT;
+    while has_messages(stream) && Instant::now() < deadline {
+        let mut header: [u8; 4] = [0x00; 4];
+        if !read_fully(stream, &mut header, deadline) {
+            stream.disconnect();
             return None;
         }
-        return Some((buffer.to_vec(), 19, 68));
-    }
 
-    let mut buffer: [u8; 4] = [0x00; 4];
-    if stream.read(&mut buffer).is_err() {
-        return None;
-    }
-    let mut length = u32::from_be_bytes(buffer);
+        if header[0] == 0x13 {
+            let mut handshake = vec![0; 68];
+            handshake[..4].copy_from_slice(&header);
+            if !read_fully(stream, &mut handshake[4..], deadline) {
+                stream.disconnect();
+                return None;
+            }
+            return Some((handshake, 19, 68));
+        }
 
-    let mut buffer: [u8; 1] = [0x00; 1];
-    if stream.read(&mut buffer).is_err() {
-        return None;
-    }
-    let id = buffer[0];
+        let length = u32::from_be_bytes(header);
+        if length == 0 {
+            // keep alive
+            continue;
+        }
 
-    if length == 0 {
-        return Some((vec![], id, 0));
-    } else {
-        length -= 1
-    }
+        if length > MAX_FRAME_LENGTH {
+            stream.disconnect();
+            return None;
+        }
 
-    let mut body = vec![0; length as usize];
-    for retry in 1..40 {
-        if peek_and_read(stream, &mut body, length as usize) {
-            return Some((body, id, length));
+        let mut frame = vec![0; length as usize];
+        if !read_fully(stream, &mut frame, deadline) {
+            stream.disconnect();
+            return None;
         }
-        thread::sleep(time::Duration::from_millis(5 * retry));
+        let id = frame.remove(0);
+        return Some((frame, id, length - 1));
     }
     None
 }
-- 
2.43.0


From 74e138dd331076f27a06d468e6c4ffd028ac6526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 08/29] fix: wait for the handshake and for readiness by idle
 time, not by number of messages

---
 src/peer/manager.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 0d92b24..18fc815 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -1,3 +1,5 @@
+use std::time::{Duration, Instant};
+
 use log::{debug, error, info};
 use sha1::{Digest, Sha1};
 
@@ -8,6 +10,9 @@ use crate::torrent::info::{Info, InfoError};
 use super::download::{Downloadable, DownloadableError};
 use super::stream::{StreamError, StreamInterface};
 
+// How long a peer may keep talking without becoming ready.
+const READY_TIMEOUT: Duration = Duration::from_secs(30);
+
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
 pub enum PeerManagerError {
     #[error("Handshake error with peer")]
@@ -91,9 +96,14 @@ pub fn download(
 
 fn init_peer(peer: &mut Peer) -> Result<(), PeerManagerError> {
     peer.send_message(new_handshake(&peer.get_info_hash(), &peer.get_peer_id()));
-    match peer.read_message() {
-        Some(message) => peer.apply_message(&message),
-        None => debug!("No message available to read"),
+    for _ in 0..10 {
+        match peer.read_message() {
+            Some(message) => {
+                peer.apply_message(&message);
+                break;
+            }
+            None => debug!("No message available to read"),
+        }
     }
 
     if !peer.is_active() {
@@ -104,10 +114,15 @@ fn init_peer(peer: &mut Peer) -> Result<(), PeerManagerError> {
     peer.send_metadata_handshake_request()
         .map_err(|_| PeerManagerError::HandshakeMetadata())?;
 
-    for _ in 0..10 {
+    let deadline = Instant::now() + READY_TIMEOUT;
+    let mut idle_count = 0;
+    while idle_count < 10 && Instant::now() < deadline {
         match peer.read_message() {
             Some(message) => peer.apply_message(&message),
-            None => debug!("No message available to read"),
+            None => {
+                debug!("No message available to read");
+                idle_count += 1;
+            }
         }
 
         if peer.is_ready() {
-- 
2.43.0


From 0da3a35307fd7a1e89d24457f846b79d7ce1d45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 09/29] fix: give up on a peer that keeps talking but never
 sends what was asked for

---
 src/peer/buffer.rs       |  5 ++++-
 src/peer/download/mod.rs | 11 +++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/peer/buffer.rs b/src/peer/buffer.rs
index 5e6cc97..22cc6d1 100644
--- a/src/peer/buffer.rs
+++ b/src/peer/buffer.rs
@@ -30,10 +30,13 @@ where
         }
     }
 
-    pub fn push_message(&mut self, msg: Message) {
+    // Tells whether the message was one of those waited for.
+    pub fn push_message(&mut self, msg: Message) -> bool {
         if (self.message_filter)(&msg) && !self.is_full() {
             self.buffer.push(msg);
+            return true;
         }
+        false
     }
 
     pub fn request_next_message(&mut self, peer: &mut Peer) {
diff --git a/src/peer/download/mod.rs b/src/peer/download/mod.rs
index 7f0a907..9e3102e 100644
--- a/src/peer/download/mod.rs
+++ b/src/peer/download/mod.rs
@@ -1,11 +1,15 @@
 pub mod block;
 pub mod info;
 
+use std::time::{Duration, Instant};
+
 use crate::peer::buffer::MessageBuffer;
 use crate::peer::Peer;
 
 pub const BLOCK_SIZE: usize = 16384;
 pub const INFO_PIECE_SIZE: usize = 16384;
+// How long a peer may keep talking without sending what was asked for.
+const PROGRESS_TIMEOUT: Duration = Duration::from_secs(30);
 
 pub enum Downloadable {
     Info,
@@ -60,11 +64,14 @@ where
     F: FnMut(&mut Peer, usize),
 {
     let mut idle_count = 0;
+    let mut last_progress = Instant::now();
 
     loop {
         if let Some(message) = peer.read_message() {
             peer.apply_message(&message);
-            buffer.push_message(message);
+            if buffer.push_message(message) {
+                last_progress = Instant::now();
+            }
             idle_count = 0;
         }
 
@@ -80,7 +87,7 @@ where
 
         idle_count += 1;
 
-        if idle_count > 10 {
+        if idle_count > 10 || last_progress.elapsed() > PROGRESS_TIMEOUT {
             return Err(DownloadableError::Idle());
         }
     }
-- 
2.43.0


From e2d25c2f6e5381bda2f75fa34d7f0dfe210ab17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 10/29] fix: refuse messages too short for their type instead
 of panicking

---
 src/messages/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/messages/mod.rs b/src/messages/mod.rs
index 8f21009..148019e 100644
--- a/src/messages/mod.rs
+++ b/src/messages/mod.rs
@@ -34,6 +34,16 @@ impl Message {
     // TODO: Maybe we could promote body to use a ContentType as parameter type, even though this function is used
     // during the read of a message.
     pub fn new_raw(body: Vec<u8>, length: u32, id: u8) -> Result<Message, &'static str> {
+        let minimum_length = match id {
+            7 | 6 => 8,
+            20 => 1,
+            19 => 68,
+            _ => 0,
+        };
+        if body.len() < minimum_length {
+            return Err("Message body too short");
+        }
+
         let content = match id {
             2 => ContentType::Interested(InterestedMessage::from_bytes()),
             5 => ContentType::Bitfield(BitfieldMessage::from_bytes(&body)),
-- 
2.43.0


From df0b2d21c078bccb0a0ebbe958a8e7313842d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 11/29] fix: do not panic on peers without the metadata
 extension, do not truncate extension ids

---
 src/messages/extension.rs | 5 +++--
 src/peer/download/info.rs | 4 +++-
 src/peer/mod.rs           | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/messages/extension.rs b/src/messages/extension.rs
index 995950b..52cdb74 100644
--- a/src/messages/extension.rs
+++ b/src/messages/extension.rs
@@ -97,8 +97,9 @@ impl ExtensionMessage {
 fn build_extensions_map(metainfo_map: &HashMap<String, Metainfo>) -> HashMap<String, u8> {
     let mut extension: HashMap<String, u8> = HashMap::new();
     for (key, metainfo_value) in metainfo_map {
-        if let Ok(value) = metainfo_value.get_integer_content() {
-            extension.insert(key.to_owned(), value as u8);
+        let value = metainfo_value.get_integer_content().ok();
+        if let Some(value) = value.and_then(|value| u8::try_from(value).ok()) {
+            extension.insert(key.to_owned(), value);
         } else {
             info!("No extension value found from {:?}", metainfo_value);
         }
diff --git a/src/peer/download/info.rs b/src/peer/download/info.rs
index 37b58bb..4751f0a 100644
--- a/src/peer/download/info.rs
+++ b/src/peer/download/info.rs
@@ -6,7 +6,9 @@ use crate::{
 pub fn next_piece() -> impl FnMut(&mut Peer, usize) {
     |peer: &mut Peer, piece_index| {
         let metadata_id = peer.get_extension_id_by_name("ut_metadata");
-        peer.send_message(new_metadata(metadata_id, piece_index))
+        if metadata_id != 0 {
+            peer.send_message(new_metadata(metadata_id, piece_index))
+        }
     }
 }
 
diff --git a/src/peer/mod.rs b/src/peer/mod.rs
index 98a032e..1c857fe 100644
--- a/src/peer/mod.rs
+++ b/src/peer/mod.rs
@@ -69,8 +69,9 @@ impl Peer {
         self.metadata_size
     }
 
+    // Zero, which is no valid id, when the peer does not support the extension.
     pub fn get_extension_id_by_name(&self, name: &str) -> u8 {
-        *self.extensions.get(name).unwrap()
+        *self.extensions.get(name).unwrap_or(&0)
     }
 
     fn apply_message(&mut self, message: &Message) {
-- 
2.43.0


From de5c9983e8a655f35f89ae08c98b10600700e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:27 +0000
Subject: [PATCH 12/29] fix: bound the memory a peer can make a download take

---
 src/peer/download/block.rs | 3 ++-
 src/peer/download/info.rs  | 5 ++++-
 src/peer/mod.rs            | 8 +++++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/peer/download/block.rs b/src/peer/download/block.rs
index ccab021..e2b3506 100644
--- a/src/peer/download/block.rs
+++ b/src/peer/download/block.rs
@@ -1,5 +1,6 @@
 use std::cmp;
 
+use super::BLOCK_SIZE;
 use crate::{
     messages::{new_request, Message},
     peer::Peer,
@@ -28,7 +29,7 @@ pub fn next_block(
 }
 
 pub fn message_filter() -> fn(&Message) -> bool {
-    Message::is_request_message
+    |message| message.is_request_message() && message.get_content_data().len() <= BLOCK_SIZE
 }
 
 fn get_block_size(
diff --git a/src/peer/download/info.rs b/src/peer/download/info.rs
index 4751f0a..2d6f5ec 100644
--- a/src/peer/download/info.rs
+++ b/src/peer/download/info.rs
@@ -1,3 +1,4 @@
+use super::INFO_PIECE_SIZE;
 use crate::{
     messages::{new_metadata, Message},
     peer::Peer,
@@ -13,5 +14,7 @@ pub fn next_piece() -> impl FnMut(&mut Peer, usize) {
 }
 
 pub fn message_filter() -> fn(&Message) -> bool {
-    Message::is_extension_data_message
+    |message| {
+        message.is_extension_data_message() && message.get_content_data().len() <= INFO_PIECE_SIZE
+    }
 }
diff --git a/src/peer/mod.rs b/src/peer/mod.rs
index 1c857fe..31a53d7 100644
--- a/src/peer/mod.rs
+++ b/src/peer/mod.rs
@@ -14,6 +14,9 @@ use crate::peer::stream::{
     read_stream, send_metadata_handshake_request, write_stream, StreamInterface,
 };
 
+// The largest torrent metadata this client asks for.
+const MAX_METADATA_SIZE: usize = 16 * 1024 * 1024;
+
 #[derive(Debug)]
 pub struct Peer {
     id: String,
@@ -110,7 +113,10 @@ impl Peer {
             ContentType::Extension(content) => {
                 if content.is_handshake() {
                     self.extensions = content.get_extensions().clone();
-                    self.metadata_size = content.get_metadata_size().unwrap_or(0);
+                    self.metadata_size = content
+                        .get_metadata_size()
+                        .filter(|size| *size <= MAX_METADATA_SIZE)
+                        .unwrap_or(0);
                 }
             }
             ContentType::Handshake(handshake) => {
-- 
2.43.0


From c016dec1a4bef153317bcf68903643b381a114fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 13/29] fix: refuse metadata whose lengths, files and piece
 hashes do not fit together

---
 src/torrent/info.rs | 52 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index d39a248..9e04639 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -8,7 +8,7 @@ use log::{error, info};
 use crate::bencode::decode::{Decoder, DecoderError};
 use crate::bencode::encode::{encode_dict_entry, Encode};
 use crate::bencode::metainfo::{Metainfo, MetainfoError};
-use crate::torrent::file::File;
+use crate::torrent::file::{File, FileError};
 
 #[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
 pub struct Info {
@@ -27,6 +27,10 @@ pub enum InfoError {
     DecoderError(#[from] DecoderError),
     #[error("No file length specified")]
     NoFileLenght(),
+    #[error("Error handling a file entry")]
+    FileError(#[from] FileError),
+    #[error("Piece hashes do not match the lengths")]
+    BadPieces(),
     #[error("No info file found at {0}")]
     NoInfoFile(String),
 }
@@ -41,20 +45,52 @@ impl Info {
         let pieces = a.get_bytes_from_dict("pieces")?;
         let piece_length = a.get_integer_from_dict("piece length")?;
         let name = a.get_string_from_dict("name")?;
-        let length = a.get_integer_from_dict("length").ok();
-
-        let files = a
-            .get_list_from_dict("files")
+        let length = a
+            .get_value_from_dict("length")
             .ok()
-            .map(|elements| elements.iter().flat_map(File::from_metainfo).collect());
+            .map(|length| length.get_integer_content())
+            .transpose()?;
+
+        let files = match a.get_value_from_dict("files") {
+            Ok(files) => Some(
+                files
+                    .get_list_content()?
+                    .iter()
+                    .map(File::from_metainfo)
+                    .collect::<Result<Vec<File>, FileError>>()?,
+            ),
+            Err(_) => None,
+        };
 
-        Ok(Info {
+        let info = Info {
             name,
             pieces: pieces.to_vec(),
             piece_length,
             files,
             length,
-        })
+        };
+        info.validate()?;
+        Ok(info)
+    }
+
+    // The piece hashes must cover exactly the content the lengths announce.
+    fn validate(&self) -> Result<(), InfoError> {
+        if self.piece_length == 0 || self.piece_length > u32::MAX as usize {
+            return Err(InfoError::BadPieces());
+        }
+
+        let total_length = self
+            .get_files()?
+            .iter()
+            .try_fold(0_usize, |total, file| total.checked_add(file.get_length()))
+            .ok_or(InfoError::BadPieces())?;
+        if self.pieces.len() % 20 != 0
+            || self.pieces.len() / 20 != total_length.div_ceil(self.piece_length)
+        {
+            return Err(InfoError::BadPieces());
+        }
+
+        Ok(())
     }
 
     pub fn from_file(file_path: &str) -> Result<Info, InfoError> {
-- 
2.43.0


From 3d1b86012f557cbdeb32380fb18af4cd031c4179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:36 +0000
Subject: [PATCH 14/29] fix: refuse metadata with file paths that lead out of
 the working directory

---
 src/torrent/file.rs |  8 ++++++++
 src/torrent/info.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/torrent/file.rs b/src/torrent/file.rs
index 03e8855..9de5c64 100644
--- a/src/torrent/file.rs
+++ b/src/torrent/file.rs
@@ -40,6 +40,14 @@ impl File {
     pub fn get_path(&self) -> Vec<String> {
         self.path.to_vec()
     }
+
+    // Whether the path names something below the folder it is joined to.
+    pub fn has_safe_path(&self) -> bool {
+        !self.path.is_empty()
+            && self.path.iter().all(|component| {
+                !component.contains(['/', '\0']) && !["", ".", ".."].contains(&component.as_str())
+            })
+    }
 }
 
 impl Encode for File {
diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 9e04639..88a5d11 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -29,6 +29,8 @@ pub enum InfoError {
     NoFileLenght(),
     #[error("Error handling a file entry")]
     FileError(#[from] FileError),
+    #[error("File path outside of the download folder")]
+    UnsafePath(),
     #[error("Piece hashes do not match the lengths")]
     BadPieces(),
     #[error("No info file found at {0}")]
@@ -79,8 +81,12 @@ impl Info {
             return Err(InfoError::BadPieces());
         }
 
-        let total_length = self
-            .get_files()?
+        let files = self.get_files()?;
+        if !files.iter().all(File::has_safe_path) {
+            return Err(InfoError::UnsafePath());
+        }
+
+        let total_length = files
             .iter()
             .try_fold(0_usize, |total, file| total.checked_add(file.get_length()))
             .ok_or(InfoError::BadPieces())?;
-- 
2.43.0


From bb989ef71f718af2c9ad429739606e0d86991061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 15/29] fix: a damaged or unwritable metadata cache is no
 reason to panic

---
 src/actors/torrent.rs | 2 +-
 src/torrent/info.rs   | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 5e090de..710580c 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -159,7 +159,7 @@ impl Handler<PeerFound> for TorrentActor {
 fn collect_info(info_hash: &[u8], endpoint: &str) -> Option<Info> {
     let filename = urlencoding::encode_binary(info_hash).into_owned();
     let file_path = format!("./downloads/{filename}");
-    std::fs::create_dir_all("./downloads").unwrap();
+    let _ = std::fs::create_dir_all("./downloads");
 
     if let Ok(info) = Info::from_file(&file_path) {
         return Some(info);
diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 88a5d11..8dafd42 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -111,7 +111,9 @@ impl Info {
                 return Err(InfoError::NoInfoFile(file_path.to_owned()));
             }
 
-            let info: Info = serde_json::from_str(&info_buffer).unwrap();
+            let info: Info = serde_json::from_str(&info_buffer)
+                .map_err(|_| InfoError::NoInfoFile(file_path.to_owned()))?;
+            info.validate()?;
 
             return Ok(info);
         }
@@ -120,7 +122,10 @@ impl Info {
     }
 
     pub fn save(&self, file_path: &str) -> Result<(), InfoError> {
-        if let Err(err) = serde_json::to_writer(&std::fs::File::create(file_path).unwrap(), self) {
+        let saved = std::fs::File::create(file_path)
+            .map_err(serde_json::Error::io)
+            .and_then(|file| serde_json::to_writer(&file, self));
+        if let Err(err) = saved {
             error!(
                 "Caught error {:?} while saving the info to file {:?}",
                 err, file_path
-- 
2.43.0


From eb9c6e88b0a3a2e8bc2c53f5992512adbcd8b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 16/29] fix: write whole pieces and download a piece again when
 writing it failed

---
 src/actors/writer.rs  | 11 +++++++++--
 src/torrent/writer.rs | 40 +++++++++++++++++++++++++++++-----------
 2 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/actors/writer.rs b/src/actors/writer.rs
index 233f060..13fbbe8 100644
--- a/src/actors/writer.rs
+++ b/src/actors/writer.rs
@@ -2,7 +2,7 @@ use actix::prelude::*;
 
 use crate::torrent::writer::write;
 
-use super::messages::PieceReady;
+use super::messages::{PieceDownloadFailed, PieceReady};
 
 pub struct WriterActor;
 
@@ -19,7 +19,14 @@ impl Handler<PieceReady> for WriterActor {
     type Result = Result<bool, std::io::Error>;
 
     fn handle(&mut self, msg: PieceReady, _ctx: &mut Self::Context) -> Self::Result {
-        let _ = write(msg.piece, msg.piece_idx, msg.files, msg.piece_length);
+        if let Err(err) = write(msg.piece, msg.piece_idx, msg.files, msg.piece_length) {
+            log::error!("Piece {:?} not written: {}", msg.piece_idx, err);
+            // No peer is to blame: the piece only has to be downloaded again
+            msg.torrent_actor.do_send(PieceDownloadFailed {
+                endpoint: String::new(),
+                piece_idx: msg.piece_idx,
+            });
+        }
 
         Ok(true)
     }
diff --git a/src/torrent/writer.rs b/src/torrent/writer.rs
index e2201d0..7a37543 100644
--- a/src/torrent/writer.rs
+++ b/src/torrent/writer.rs
@@ -10,7 +10,10 @@ use std::os::windows::prelude::FileExt;
 use crate::torrent::file::File;
 
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
-pub enum WriterError {}
+pub enum WriterError {
+    #[error("Error writing to filesystem: {0}")]
+    Filesystem(String),
+}
 
 pub fn write(
     piece: Vec<u8>,
@@ -20,7 +23,8 @@ pub fn write(
 ) -> Result<(), WriterError> {
     get_file_writers(files, piece, idx, piece_length)
         .iter()
-        .for_each(|writer| writer.write_to_filesystem());
+        .try_for_each(|writer| writer.write_to_filesystem())
+        .map_err(|err| WriterError::Filesystem(err.to_string()))?;
 
     log::info!("Completed write to filesystem for piece {:?}", idx);
     Ok(())
@@ -45,23 +49,37 @@ impl FileWriter {
     }
 
     // TODO: Add optional folder where to save output
-    pub fn write_to_filesystem(&self) {
+    pub fn write_to_filesystem(&self) -> std::io::Result<()> {
         let path_string = &self.path.join("/");
         let path = std::path::Path::new(path_string);
-        let prefix = path.parent().unwrap();
-        std::fs::create_dir_all(prefix).unwrap();
+        if let Some(prefix) = path.parent() {
+            std::fs::create_dir_all(prefix)?;
+        }
 
         let file = fs::OpenOptions::new()
             .write(true)
             .create(true)
-            .open(path)
-            .unwrap();
+            .open(path)?;
+
+        let mut written = 0;
+        while written < self.piece.len() {
+            let rest = &self.piece[written..];
+            let offset = (self.start + written) as u64;
 
-        #[cfg(target_family = "unix")]
-        file.write_at(&self.piece, self.start as u64).unwrap();
+            #[cfg(target_family = "unix")]
+            let result = file.write_at(rest, offset);
 
-        #[cfg(target_family = "windows")]
-        file.seek_write(&self.piece, self.start as u64).unwrap();
+            #[cfg(target_family = "windows")]
+            let result = file.seek_write(rest, offset);
+
+            match result {
+                Ok(0) => return Err(std::io::ErrorKind::WriteZero.into()),
+                Ok(size) => written += size,
+                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
+                Err(err) => return Err(err),
+            }
+        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From a77057d5c57e78635e9e172643eebfe26e4a3bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 17/29] fix: create the empty files of a torrent too

---
 src/torrent/writer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/torrent/writer.rs b/src/torrent/writer.rs
index 7a37543..2434578 100644
--- a/src/torrent/writer.rs
+++ b/src/torrent/writer.rs
@@ -21,7 +21,15 @@ pub fn write(
     files: Vec<File>,
     piece_length: usize,
 ) -> Result<(), WriterError> {
-    get_file_writers(files, piece, idx, piece_length)
+    // Empty files belong to no piece: they come with the first one
+    let mut writers: Vec<FileWriter> = files
+        .iter()
+        .filter(|file| idx == 0 && file.get_length() == 0)
+        .map(|file| FileWriter::new(file.get_path(), 0, 0, vec![]))
+        .collect();
+    writers.extend(get_file_writers(files, piece, idx, piece_length));
+
+    writers
         .iter()
         .try_for_each(|writer| writer.write_to_filesystem())
         .map_err(|err| WriterError::Filesystem(err.to_string()))?;
-- 
2.43.0


From a2e874d7513ed84fb81ea0c1cdf870d34c3b4455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:22 +0000
Subject: [PATCH 18/29] fix: start downloading as soon as the metadata and one
 peer are known

---
 src/actors/torrent.rs | 55 ++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 710580c..5f047d9 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -117,36 +117,33 @@ impl Handler<PeerFound> for TorrentActor {
     fn handle(&mut self, msg: PeerFound, ctx: &mut Context<Self>) -> Self::Result {
         self.peers.push(Peer::new(msg.peer.endpoint()));
 
-        match &self.info {
-            None => {
-                if let Some(info) = collect_info(&self.info_hash, &msg.peer.endpoint()) {
-                    let piece_count = (0..info.get_total_length())
-                        .step_by(info.get_piece_length())
-                        .len();
-
-                    self.piece_available_pool = Some(PiecePool::new(piece_count));
-                    self.info = Some(info);
-                }
-
-                return Ok(true);
+        if self.info.is_none() {
+            if let Some(info) = collect_info(&self.info_hash, &msg.peer.endpoint()) {
+                let piece_count = (0..info.get_total_length())
+                    .step_by(info.get_piece_length())
+                    .len();
+
+                self.piece_available_pool = Some(PiecePool::new(piece_count));
+                self.info = Some(info);
             }
-            Some(info) => {
-                if self.peers.len() > 10 && !self.initiated {
-                    for _ in 0..5 {
-                        let endpoint = Peer::find_suitable_peer(self.peers.to_vec());
-
-                        if let Some(piece_idx) = self.piece_available_pool.as_mut().unwrap().pop() {
-                            let msg = PieceRequested {
-                                piece_idx,
-                                info_hash: self.info_hash.clone(),
-                                info: info.clone(),
-                                endpoint,
-                                torrent_actor: ctx.address(),
-                            };
-
-                            self.connections_pool.do_send(msg);
-                            self.initiated = true;
-                        }
+        }
+
+        if let Some(info) = &self.info {
+            if !self.initiated {
+                for _ in 0..5 {
+                    let endpoint = Peer::find_suitable_peer(self.peers.to_vec());
+
+                    if let Some(piece_idx) = self.piece_available_pool.as_mut().unwrap().pop() {
+                        let msg = PieceRequested {
+                            piece_idx,
+                            info_hash: self.info_hash.clone(),
+                            info: info.clone(),
+                            endpoint,
+                            torrent_actor: ctx.address(),
+                        };
+
+                        self.connections_pool.do_send(msg);
+                        self.initiated = true;
                     }
                 }
             }
-- 
2.43.0


From 1726062dedc8bbcd34c7a063116b1189d60154b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 19/29] fix: UDP tracker answers are matched to the request,
 missing ones time out, one peer is enough

---
 src/tracker/udp_tracker.rs | 42 ++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index acdbdaf..a1b572c 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -1,7 +1,13 @@
+use std::time::Duration;
+
 use tokio::net::UdpSocket;
+use tokio::time::{timeout_at, Instant};
 
 use url::Url;
 
+// How long to wait for an answer before asking again.
+const RESPONSE_TIMEOUT: Duration = Duration::from_secs(5);
+
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
 pub enum UdpTrackerError {
     #[error("Tracker missing post")]
@@ -25,7 +31,7 @@ pub async fn call(
 ) -> Result<Vec<u8>, UdpTrackerError> {
     let socket = UdpSocket::bind("0.0.0.0:0")
         .await
-        .expect("couldn't bind to address");
+        .map_err(|_| UdpTrackerError::NoConnectionEstablished())?;
     let tracker_hostname = format!(
         "{}:{}",
         tracker_url
@@ -37,7 +43,7 @@ pub async fn call(
     socket
         .connect(tracker_hostname.clone())
         .await
-        .expect("Panico");
+        .map_err(|_| UdpTrackerError::NoConnectionEstablished())?;
 
     let transaction_id: &[u8] = &[0x00, 0x01, 0x19, 0x9e];
     let connection_id = connect_to_tracker(transaction_id, &socket).await?;
@@ -48,11 +54,10 @@ pub async fn call(
         peer_id.as_bytes(),
         info_hash,
     );
-    send_upd_packet(&socket, message).await?;
 
     let mut annouce_buf: [u8; 4000] = [0x00; 4000];
-    let resp_size = read_upd_packet(&socket, &mut annouce_buf).await?;
-    if resp_size > 26 {
+    let resp_size = exchange(&socket, message, 1, transaction_id, &mut annouce_buf).await?;
+    if resp_size >= 26 {
         return Ok(annouce_buf[20..resp_size].to_vec());
     }
 
@@ -67,13 +72,34 @@ async fn connect_to_tracker(
 
     let mut buf: [u8; 16] = [0x00; 16];
 
+    if exchange(socket, message, 0, transaction_id, &mut buf).await? < 16 {
+        return Err(UdpTrackerError::NoConnectionEstablished());
+    }
+    Ok(buf[8..].to_vec())
+}
+
+// Sends the request and waits for its answer, asking again when none comes.
+async fn exchange(
+    socket: &UdpSocket,
+    message: &[u8],
+    action: u32,
+    transaction_id: &[u8],
+    buffer: &mut [u8],
+) -> Result<usize, UdpTrackerError> {
     for retry in 1..5 {
         if send_upd_packet(socket, message).await.is_err() {
-            log::error!("Send udp connect packet failed, retry number {}", retry);
+            log::error!("Send udp packet failed, retry number {}", retry);
         };
 
-        if read_upd_packet(socket, &mut buf).await.is_ok() {
-            return Ok(buf[8..].to_vec());
+        let deadline = Instant::now() + RESPONSE_TIMEOUT;
+        while let Ok(Ok(resp_size)) = timeout_at(deadline, read_upd_packet(socket, buffer)).await {
+            // Late answers to other requests are skipped
+            if resp_size >= 8
+                && buffer[..4] == action.to_be_bytes()
+                && buffer[4..8] == *transaction_id
+            {
+                return Ok(resp_size);
+            }
         }
     }
 
-- 
2.43.0


From b31c362c2da4c43fc3f046150edbdad01764dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:46 +0000
Subject: [PATCH 20/29] fix: answer a bad magnet with 400, never drop a
 registration on a full mailbox

---
 src/actors/trackers_interface.rs | 2 +-
 src/main.rs                      | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/actors/trackers_interface.rs b/src/actors/trackers_interface.rs
index 5d9ed75..497e7ac 100644
--- a/src/actors/trackers_interface.rs
+++ b/src/actors/trackers_interface.rs
@@ -58,7 +58,7 @@ impl Handler<TorrentRegistered> for TrackersInterfaceActor {
 
     fn handle(&mut self, msg: TorrentRegistered, _ctx: &mut Context<Self>) -> Self::Result {
         for actor in self.trackers.iter() {
-            let _ = actor.try_send(msg.clone());
+            actor.do_send(msg.clone());
         }
 
         Ok(true)
diff --git a/src/main.rs b/src/main.rs
index 929c2bf..422cdbf 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -26,7 +26,10 @@ use crate::actors::torrent::TorrentActor;
 
 #[post("/add/magnet")]
 async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpResponse {
-    let magnet = magnet::parse_magnet(magnet_raw.as_bytes().to_vec()).unwrap();
+    let magnet = match magnet::parse_magnet(magnet_raw.as_bytes().to_vec()) {
+        Ok(magnet) => magnet,
+        Err(err) => return HttpResponse::BadRequest().body(err.to_string()),
+    };
     let info_hash = magnet.get_info_hash();
 
     let addr = TorrentActor::new(info_hash.clone()).start();
@@ -36,7 +39,7 @@ async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpRespon
         torrent_actor_addr: addr.clone(),
     };
 
-    let _ = data.trackers_interface.try_send(msg);
+    data.trackers_interface.do_send(msg);
 
     HttpResponse::Ok().body("Test")
 }
-- 
2.43.0


From 1a92c5080ea34813a0cccd0b311d11c0a167390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:49 +0000
Subject: [PATCH 21/29] fix: keep the query of an HTTP tracker URL apart from
 the announce parameters

---
 src/tracker/tcp_tracker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracker/tcp_tracker.rs b/src/tracker/tcp_tracker.rs
index a628db4..afbb43f 100644
--- a/src/tracker/tcp_tracker.rs
+++ b/src/tracker/tcp_tracker.rs
@@ -22,9 +22,11 @@ pub enum TcpTrackerError {
 pub fn call(info_hash: &[u8], peer_id: &str, tracker: &Url) -> Result<Vec<u8>, TcpTrackerError> {
     let url_encoded_info_hash = urlencoding::encode_binary(info_hash).into_owned();
 
+    let separator = if tracker.query().is_some() { '&' } else { '?' };
     let url = format!(
-        "{}?info_hash={}&peer_id={}",
+        "{}{}info_hash={}&peer_id={}",
         tracker.as_str(),
+        separator,
         url_encoded_info_hash,
         peer_id
     );
-- 
2.43.0


From e422aa64ef6c1fea47e27ed6e2b1675d696fc8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 22/29] fix: announce to HTTP trackers under their own host
 name

---
 src/tracker/tcp_tracker.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tracker/tcp_tracker.rs b/src/tracker/tcp_tracker.rs
index afbb43f..42d3a86 100644
--- a/src/tracker/tcp_tracker.rs
+++ b/src/tracker/tcp_tracker.rs
@@ -49,7 +49,6 @@ fn call_tracker_for_peers(url: String) -> Result<ureq::Response, TcpTrackerError
         .set("Accept", "*/*")
         .set("Connection", "keep-alive")
         .set("User-Agent", "PostmanRuntime/7.29.0")
-        .set("Host", "192.168.1.2")
         .call()
         .map_err(|_| TcpTrackerError::Connection(url))
 }
-- 
2.43.0


From 858c372d903a98bc85a099898ed720c70474bb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 23/29] fix: do not request blocks beyond the end of a piece

---
 src/peer/download/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/peer/download/block.rs b/src/peer/download/block.rs
index e2b3506..33a682b 100644
--- a/src/peer/download/block.rs
+++ b/src/peer/download/block.rs
@@ -16,7 +16,7 @@ pub fn next_block(
         let block_offset = block_index * block_size;
         let block_length = get_block_size(
             block_offset,
-            total_length,
+            cmp::min(total_length, (piece_index + 1) * piece_length),
             piece_index * piece_length,
             block_size,
         );
@@ -34,9 +34,9 @@ pub fn message_filter() -> fn(&Message) -> bool {
 
 fn get_block_size(
     block_offset: usize,
-    torrent_length: usize,
+    piece_end: usize,
     piece_offset: usize,
     block_size: usize,
 ) -> usize {
-    cmp::min(torrent_length - (block_offset + piece_offset), block_size)
+    cmp::min(piece_end - (block_offset + piece_offset), block_size)
 }
-- 
2.43.0


From aa5a7a82d8fbbeb1e89ad6ca1c43bdc0748fca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 24/29] fix: do not offer HTTP trackers compressions the client
 cannot undo

---
 src/tracker/tcp_tracker.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tracker/tcp_tracker.rs b/src/tracker/tcp_tracker.rs
index 42d3a86..a982d21 100644
--- a/src/tracker/tcp_tracker.rs
+++ b/src/tracker/tcp_tracker.rs
@@ -45,7 +45,6 @@ pub fn call(info_hash: &[u8], peer_id: &str, tracker: &Url) -> Result<Vec<u8>, T
 fn call_tracker_for_peers(url: String) -> Result<ureq::Response, TcpTrackerError> {
     ureq::get(&url)
         .timeout(Duration::from_millis(400))
-        .set("Accept-Encoding", "gzip, deflate, br")
         .set("Accept", "*/*")
         .set("Connection", "keep-alive")
         .set("User-Agent", "PostmanRuntime/7.29.0")
-- 
2.43.0


From e6b08657c0bd828b510767a478b3d5b0497c8db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:35 +0000
Subject: [PATCH 25/29] fix: keep a peer's failure count when it is announced
 again

---
 src/actors/torrent.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 5f047d9..af4c2fd 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -115,7 +115,10 @@ impl Handler<PeerFound> for TorrentActor {
     type Result = Result<bool, std::io::Error>;
 
     fn handle(&mut self, msg: PeerFound, ctx: &mut Context<Self>) -> Self::Result {
-        self.peers.push(Peer::new(msg.peer.endpoint()));
+        let endpoint = msg.peer.endpoint();
+        if !self.peers.iter().any(|peer| peer.endpoint == endpoint) {
+            self.peers.push(Peer::new(endpoint));
+        }
 
         if self.info.is_none() {
             if let Some(info) = collect_info(&self.info_hash, &msg.peer.endpoint()) {
-- 
2.43.0


From 0c6e91e1cc90af03f380ed96b89de08a3519a46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:41 +0000
Subject: [PATCH 26/29] fix: bound the time spent connecting to an HTTP tracker

---
 src/tracker/tcp_tracker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tracker/tcp_tracker.rs b/src/tracker/tcp_tracker.rs
index a982d21..7df90c8 100644
--- a/src/tracker/tcp_tracker.rs
+++ b/src/tracker/tcp_tracker.rs
@@ -43,7 +43,10 @@ pub fn call(info_hash: &[u8], peer_id: &str, tracker: &Url) -> Result<Vec<u8>, T
 }
 
 fn call_tracker_for_peers(url: String) -> Result<ureq::Response, TcpTrackerError> {
-    ureq::get(&url)
+    ureq::AgentBuilder::new()
+        .timeout_connect(Duration::from_millis(400))
+        .build()
+        .get(&url)
         .timeout(Duration::from_millis(400))
         .set("Accept", "*/*")
         .set("Connection", "keep-alive")
-- 
2.43.0


From 2c4cd253cf5aafa20b2e94426ebd3eec7e066312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:29 +0000
Subject: [PATCH 27/29] verif hook: each part of the re-export module is a
 feature of the checker's manifest

---
 src/verif.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index 81de7b0..4d26103 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -1,18 +1,22 @@
 //! Verification-only view of the crate, compiled only under `--cfg rustbit_verif`: re-exports what
-//! an external checker has to call. No behaviour lives here.
+//! an external checker has to call. No behaviour lives here. Each part is a feature of the
+//! checker's manifest, so that a part that does not fit the code any more can be left out.
 #![allow(dead_code, unused_imports)]
 
+#[cfg(feature = "bencode")]
 pub mod bencode {
     pub use crate::bencode::decode::*;
     pub use crate::bencode::encode::*;
     pub use crate::bencode::metainfo::*;
 }
+#[cfg(feature = "torrent")]
 pub mod torrent {
     pub use crate::torrent::file::*;
     pub use crate::torrent::info::*;
     pub use crate::torrent::magnet::*;
     pub use crate::torrent::writer::*;
 }
+#[cfg(feature = "messages")]
 pub mod messages {
     pub use crate::messages::bitfield::*;
     pub use crate::messages::extension::*;
@@ -20,16 +24,19 @@ pub mod messages {
     pub use crate::messages::request::*;
     pub use crate::messages::*;
 }
+#[cfg(feature = "peer")]
 pub mod peer {
     pub use crate::peer::manager::*;
     pub use crate::peer::piece_pool::*;
     pub use crate::peer::stream::*;
     pub use crate::peer::*;
 }
+#[cfg(feature = "tracker")]
 pub mod tracker {
     pub use crate::tracker::peer_endpoint::*;
     pub use crate::tracker::*;
 }
+#[cfg(feature = "actors")]
 pub mod actors {
     pub use crate::actors::connection::*;
     pub use crate::actors::messages::*;
@@ -39,15 +46,12 @@ pub mod actors {
     pub use crate::actors::writer::*;
 }
 
-use crate::actors::trackers_interface::TrackersInterfaceActor;
-use actix::Addr;
-use actix_web::web;
-
 /// The HTTP API of the client, wired to the given trackers.
+#[cfg(feature = "api")]
 pub fn configure_api(
-    trackers_interface: Addr<TrackersInterfaceActor>,
-) -> impl FnOnce(&mut web::ServiceConfig) {
-    let state = web::Data::new(crate::AppState { trackers_interface });
+    trackers_interface: actix::Addr<crate::actors::trackers_interface::TrackersInterfaceActor>,
+) -> impl FnOnce(&mut actix_web::web::ServiceConfig) {
+    let state = actix_web::web::Data::new(crate::AppState { trackers_interface });
     move |cfg| {
         cfg.app_data(state).service(crate::add_magnet);
     }
-- 
2.43.0


From 00aba2ab7c360128bd9c2c49f122e65309661ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:19 +0000
Subject: [PATCH 28/29] fix: negative integers are read, not refused

Bencode has them, and common clients put one (complete_ago -1) into their extension handshake: the whole handshake was dropped and nothing could be fetched from such a peer.
---
 src/bencode/decode.rs   | 10 +++++++++-
 src/bencode/metainfo.rs |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index 7a76403..5e95060 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -86,13 +86,21 @@ impl Decoder {
 
     fn parse_integer(&mut self) -> Result<Metainfo, DecoderError> {
         self.advance();
+        let is_negative = self.get_current_byte()? == b'-';
+        if is_negative {
+            self.advance();
+        }
         let integer: usize = self.get_consecutive_digits()?;
 
         match self.contents.get(self.current) {
             Some(b'e') => self.advance(),
             _ => return Err(DecoderError::UnexpectedByte(self.current)),
         };
-        Ok(Metainfo::Integer(integer))
+        match (is_negative, integer) {
+            (false, _) => Ok(Metainfo::Integer(integer)),
+            (true, 0) => Err(DecoderError::BadNumberDecode("-0".to_owned())),
+            (true, _) => Ok(Metainfo::NegativeInteger(integer)),
+        }
     }
 
     fn parse_string(&mut self) -> Result<Metainfo, DecoderError> {
diff --git a/src/bencode/metainfo.rs b/src/bencode/metainfo.rs
index 1f2eb18..87481f9 100644
--- a/src/bencode/metainfo.rs
+++ b/src/bencode/metainfo.rs
@@ -5,6 +5,8 @@ use std::{fmt, str};
 #[derive(Debug, PartialEq, Eq, Clone)]
 pub enum Metainfo {
     Integer(usize),
+    // Nothing this client reads is negative, so only the absolute value is kept
+    NegativeInteger(usize),
     List(Vec<Metainfo>),
     String(Vec<u8>),
     Dictionary(HashMap<String, Metainfo>),
@@ -12,6 +14,7 @@ pub enum Metainfo {
 }
 
 const METAINFO_INTEGER: &str = "Integer";
+const METAINFO_NEGATIVE_INTEGER: &str = "NegativeInteger";
 const METAINFO_LIST: &str = "List";
 const METAINFO_STRING: &str = "String";
 const METAINFO_DICTIONARY: &str = "Dictionary";
@@ -20,6 +23,7 @@ impl fmt::Display for Metainfo {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self {
             Metainfo::Integer(_) => write!(f, "{METAINFO_INTEGER}"),
+            Metainfo::NegativeInteger(_) => write!(f, "{METAINFO_NEGATIVE_INTEGER}"),
             Metainfo::List(_) => write!(f, "{METAINFO_LIST}"),
             Metainfo::String(_) => write!(f, "{METAINFO_STRING}"),
             Metainfo::Dictionary(_) => write!(f, "{METAINFO_DICTIONARY}"),
-- 
2.43.0


From 922a5669a991f4478d5d264c1a3d5ea098505d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:38 +0000
Subject: [PATCH 29/29] fix: a later extension handshake changes only what it
 tells

BEP 10 lets a peer send the handshake again with just what has changed. Such an update without the id of ut_metadata made the client forget it, and one without metadata_size was not taken for a handshake.
---
 src/messages/extension.rs |  2 +-
 src/peer/mod.rs           | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/messages/extension.rs b/src/messages/extension.rs
index 52cdb74..0d867bf 100644
--- a/src/messages/extension.rs
+++ b/src/messages/extension.rs
@@ -72,7 +72,7 @@ impl ExtensionMessage {
     }
 
     pub fn is_handshake(&self) -> bool {
-        self.metadata_size.is_some()
+        self.id == 0 || self.metadata_size.is_some()
     }
 
     pub fn is_data(&self) -> bool {
diff --git a/src/peer/mod.rs b/src/peer/mod.rs
index 31a53d7..297dcca 100644
--- a/src/peer/mod.rs
+++ b/src/peer/mod.rs
@@ -16,6 +16,8 @@ use crate::peer::stream::{
 
 // The largest torrent metadata this client asks for.
 const MAX_METADATA_SIZE: usize = 16 * 1024 * 1024;
+// The only extension this client uses.
+const METADATA_EXTENSION: &str = "ut_metadata";
 
 #[derive(Debug)]
 pub struct Peer {
@@ -112,11 +114,13 @@ impl Peer {
             ContentType::Bitfield(content) => self.bitfield = content.get_bitfield_as_bit_vector(),
             ContentType::Extension(content) => {
                 if content.is_handshake() {
-                    self.extensions = content.get_extensions().clone();
-                    self.metadata_size = content
-                        .get_metadata_size()
-                        .filter(|size| *size <= MAX_METADATA_SIZE)
-                        .unwrap_or(0);
+                    // A later handshake only has to tell what it changes
+                    if let Some(id) = content.get_extensions().get(METADATA_EXTENSION) {
+                        self.extensions.insert(METADATA_EXTENSION.to_owned(), *id);
+                    }
+                    if let Some(size) = content.get_metadata_size() {
+                        self.metadata_size = if size <= MAX_METADATA_SIZE { size } else { 0 };
+                    }
                 }
             }
             ContentType::Handshake(handshake) => {
-- 
2.43.0

