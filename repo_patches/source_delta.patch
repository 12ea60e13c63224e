From 1ce295211ba42994c0a7ba71bd74e402342d3870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 01/88] fix: set_mqtt_vsn must not index past an empty buffer

---
 src/mqtt_serde/parser/stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_serde/parser/stream.rs b/src/mqtt_serde/parser/stream.rs
index 05a863e..2f3fdf9 100644
--- a/src/mqtt_serde/parser/stream.rs
+++ b/src/mqtt_serde/parser/stream.rs
@@ -73,7 +73,8 @@ impl MqttParser {
         }
 
         // precheck if it's a CONNECT packet
-        if self.buffer[offset] != 0x10 {
+        let first_byte = *self.buffer.get(offset).ok_or(ParseError::BufferTooShort)?;
+        if first_byte != 0x10 {
             return Err(ParseError::ParseError(
                 "Expected CONNECT packet to determine MQTT version".to_string(),
             ));
-- 
2.43.0


From f5f9c1aca4023068d5fa907eea951212c811ab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 02/88] fix: bound packet decoders to their own frame

Fields whose length ran past the end of the frame were read from the bytes of
the following packet (or underflowed) instead of being rejected.
---
 src/mqtt_serde/mqttv3/connect.rs       | 1 +
 src/mqtt_serde/mqttv5/connack.rs       | 1 +
 src/mqtt_serde/mqttv5/connect.rs       | 1 +
 src/mqtt_serde/mqttv5/packet_id_ack.rs | 1 +
 src/mqtt_serde/mqttv5/publish.rs       | 1 +
 src/mqtt_serde/mqttv5/subscribe.rs     | 1 +
 src/mqtt_serde/mqttv5/unsubscribe.rs   | 1 +
 7 files changed, 7 insertions(+)

diff --git a/src/mqtt_serde/mqttv3/connect.rs b/src/mqtt_serde/mqttv3/connect.rs
index fabbd3a..f6b3ea6 100644
--- a/src/mqtt_serde/mqttv3/connect.rs
+++ b/src/mqtt_serde/mqttv3/connect.rs
@@ -121,6 +121,7 @@ impl MqttControlPacket for MqttConnect {
         if total_len > buffer.len() {
             return Ok(ParseOk::Continue(total_len - buffer.len(), 0));
         }
+        let buffer = &buffer[..total_len];
 
         // Variable Header
         let (proto_name, consumed) = parse_utf8_string(&buffer[offset..])?;
diff --git a/src/mqtt_serde/mqttv5/connack.rs b/src/mqtt_serde/mqttv5/connack.rs
index 15fe834..a013bed 100644
--- a/src/mqtt_serde/mqttv5/connack.rs
+++ b/src/mqtt_serde/mqttv5/connack.rs
@@ -69,6 +69,7 @@ pub fn parse_connack(buffer: &[u8]) -> Result<ParseOk, ParseError> {
     if total_len > buffer.len() {
         return Ok(ParseOk::Continue(total_len - buffer.len(), 0));
     }
+    let buffer = &buffer[..total_len];
 
     // MQTT 5.0 3.2.2.1 Connack Flag
     let session_present_byte = *buffer.get(offset).ok_or(ParseError::BufferTooShort)?;
diff --git a/src/mqtt_serde/mqttv5/connect.rs b/src/mqtt_serde/mqttv5/connect.rs
index bb31e24..1a9a184 100644
--- a/src/mqtt_serde/mqttv5/connect.rs
+++ b/src/mqtt_serde/mqttv5/connect.rs
@@ -173,6 +173,7 @@ impl MqttControlPacket for MqttConnect {
             let hint = total_len - buffer.len();
             return Ok(ParseOk::Continue(hint, 0));
         }
+        let buffer = &buffer[..total_len];
 
         // MQTT 5.0: 3.1.2 Var hdrs
         // MQTT 5.0: 3.1.2.1 protocol name
diff --git a/src/mqtt_serde/mqttv5/packet_id_ack.rs b/src/mqtt_serde/mqttv5/packet_id_ack.rs
index da412c6..2a80666 100644
--- a/src/mqtt_serde/mqttv5/packet_id_ack.rs
+++ b/src/mqtt_serde/mqttv5/packet_id_ack.rs
@@ -118,6 +118,7 @@ macro_rules! v5_packet_id_ack {
                         0,
                     ));
                 }
+                let buffer = &buffer[..total_len];
 
                 let (packet_id, consumed) = parse_packet_id(
                     buffer
diff --git a/src/mqtt_serde/mqttv5/publish.rs b/src/mqtt_serde/mqttv5/publish.rs
index 467be22..b31ed7f 100644
--- a/src/mqtt_serde/mqttv5/publish.rs
+++ b/src/mqtt_serde/mqttv5/publish.rs
@@ -165,6 +165,7 @@ impl MqttControlPacket for MqttPublish {
         if packet_size > buffer.len() {
             return Ok(ParseOk::Continue(packet_size - buffer.len(), 0));
         }
+        let buffer = &buffer[..packet_size];
 
         // MQTT 5.0: 3.3.2 PUBLISH VARIABLE HEADER
         // MQTT 5.0: 3.3.2.1 Topic Name
diff --git a/src/mqtt_serde/mqttv5/subscribe.rs b/src/mqtt_serde/mqttv5/subscribe.rs
index 907b022..cea44e3 100644
--- a/src/mqtt_serde/mqttv5/subscribe.rs
+++ b/src/mqtt_serde/mqttv5/subscribe.rs
@@ -262,6 +262,7 @@ impl MqttControlPacket for MqttSubscribe {
         if total_len > buffer.len() {
             return Ok(ParseOk::Continue(total_len - buffer.len(), 0));
         }
+        let buffer = &buffer[..total_len];
 
         // MQTT 5.0: 3.8.2 SUBSCRIBE Variable Header
         // Packet Identifier - always present and must be > 0
diff --git a/src/mqtt_serde/mqttv5/unsubscribe.rs b/src/mqtt_serde/mqttv5/unsubscribe.rs
index 7757022..3bbf534 100644
--- a/src/mqtt_serde/mqttv5/unsubscribe.rs
+++ b/src/mqtt_serde/mqttv5/unsubscribe.rs
@@ -126,6 +126,7 @@ impl MqttControlPacket for MqttUnsubscribe {
         if total_len > buffer.len() {
             return Ok(ParseOk::Continue(total_len - buffer.len(), 0));
         }
+        let buffer = &buffer[..total_len];
 
         // MQTT 5.0: 3.10.2 UNSUBSCRIBE Variable Header
         // Packet Identifier - always present and must be > 0
-- 
2.43.0


From 8fcc8d96af5f46569b7626f2d0ed9fb47e28281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:51 +0000
Subject: [PATCH 03/88] fix: accept empty user name, password and will payload
 in MQTT 5 CONNECT

They are legal (MQTT 5.0 3.1.3.4-3.1.3.6) and the encoder produces them.
---
 src/mqtt_serde/mqttv5/connect.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/mqtt_serde/mqttv5/connect.rs b/src/mqtt_serde/mqttv5/connect.rs
index 1a9a184..9af0647 100644
--- a/src/mqtt_serde/mqttv5/connect.rs
+++ b/src/mqtt_serde/mqttv5/connect.rs
@@ -258,9 +258,10 @@ impl MqttControlPacket for MqttConnect {
             // Will is present
             let (will, consumed) = Will::from_bytes(&buffer[offset..], connect_flags)?;
             offset += consumed;
-            if will.will_topic.is_empty() || will.will_message.is_empty() {
+            // The will topic must name a topic; a zero-length will payload is legal (3.1.3.4)
+            if will.will_topic.is_empty() {
                 return Err(ParseError::ParseError(
-                    "Will topic or message cannot be empty".to_string(),
+                    "Will topic cannot be empty".to_string(),
                 ));
             }
             Some(will)
@@ -274,11 +275,6 @@ impl MqttControlPacket for MqttConnect {
             let (username, consumed) =
                 parse_utf8_string(buffer.get(offset..).ok_or(ParseError::BufferTooShort)?)?;
             offset += consumed;
-            if username.is_empty() {
-                return Err(ParseError::ParseError(
-                    "Username cannot be empty".to_string(),
-                ));
-            }
             Some(username.to_string())
         } else {
             None
@@ -288,11 +284,6 @@ impl MqttControlPacket for MqttConnect {
             let (password, consumed) =
                 parse_binary_data(buffer.get(offset..).ok_or(ParseError::BufferTooShort)?)?;
             offset += consumed;
-            if password.is_empty() {
-                return Err(ParseError::ParseError(
-                    "Password cannot be empty".to_string(),
-                ));
-            }
             Some(password)
         } else {
             None
-- 
2.43.0


From e6b6377e4526c9fa58154aca60983075481640b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:48 +0000
Subject: [PATCH 04/88] fix: an incomplete fixed header means 'need more
 bytes', not a parse error

A packet whose type byte or Remaining Length was split across reads made
next_packet() fail and the connection drop.
---
 src/mqtt_serde/control_packet.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mqtt_serde/control_packet.rs b/src/mqtt_serde/control_packet.rs
index 9102e57..d4d026b 100644
--- a/src/mqtt_serde/control_packet.rs
+++ b/src/mqtt_serde/control_packet.rs
@@ -131,6 +131,9 @@ impl MqttPacket {
     pub fn from_bytes_v5(buffer: &[u8]) -> Result<ParseOk, ParseError> {
         let packet_type_byte = packet_type(buffer)?;
         let packet_type = ControlPacketType::try_from(packet_type_byte)?;
+        if !fixed_header_complete(buffer) {
+            return Ok(ParseOk::Continue(1, 0));
+        }
 
         match packet_type {
             ControlPacketType::CONNECT => connectv5::MqttConnect::from_bytes(buffer),
@@ -154,6 +157,9 @@ impl MqttPacket {
     pub fn from_bytes_v3(buffer: &[u8]) -> Result<ParseOk, ParseError> {
         let packet_type_byte = packet_type(buffer)?;
         let packet_type = ControlPacketType::try_from(packet_type_byte)?;
+        if !fixed_header_complete(buffer) {
+            return Ok(ParseOk::Continue(1, 0));
+        }
 
         match packet_type {
             ControlPacketType::CONNECT => connectv3::MqttConnect::from_bytes(buffer),
@@ -175,6 +181,13 @@ impl MqttPacket {
     }
 }
 
+/// True once the whole fixed header (type byte and Remaining Length) has arrived,
+/// or the Remaining Length is already known to be malformed.
+fn fixed_header_complete(buffer: &[u8]) -> bool {
+    let remaining_length = buffer.iter().skip(1).take(4);
+    remaining_length.len() == 4 || remaining_length.clone().any(|b| b & 0x80 == 0)
+}
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 pub enum ControlPacketType {
     CONNECT = 1,
-- 
2.43.0


From a6a71dc411c5eba63467c479c55f3878d5df7287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:48 +0000
Subject: [PATCH 05/88] fix: MqttStream::next loops instead of recursing once
 per read

A large packet arriving in small reads overflowed the stack.
---
 src/mqtt_serde/parser/stream.rs | 49 +++++++++++++++++----------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/mqtt_serde/parser/stream.rs b/src/mqtt_serde/parser/stream.rs
index 2f3fdf9..29cc769 100644
--- a/src/mqtt_serde/parser/stream.rs
+++ b/src/mqtt_serde/parser/stream.rs
@@ -247,33 +247,34 @@ where
     type Item = Result<MqttPacket, ParseError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.parser.next_packet() {
-            Ok(Some(packet)) => Some(Ok(packet)),
-            Ok(None) => {
-                // Reserve space in the parser's buffer for reading
-                let buffer = self.parser.buffer_mut();
-                let initial_len = buffer.len();
-                buffer.resize(initial_len + 1024, 0);
-
-                match self.stream.read(&mut buffer[initial_len..]) {
-                    Ok(0) => {
-                        // End of stream - remove the unused space we reserved
-                        buffer.truncate(initial_len);
-                        None
-                    }
-                    Ok(n) => {
-                        // Adjust buffer to actual bytes read
-                        buffer.truncate(initial_len + n);
-                        self.next() // Try to parse again
-                    }
-                    Err(e) => {
-                        // Remove the unused space we reserved
-                        buffer.truncate(initial_len);
-                        Some(Err(ParseError::IoError(e)))
+        loop {
+            match self.parser.next_packet() {
+                Ok(Some(packet)) => return Some(Ok(packet)),
+                Ok(None) => {
+                    // Reserve space in the parser's buffer for reading
+                    let buffer = self.parser.buffer_mut();
+                    let initial_len = buffer.len();
+                    buffer.resize(initial_len + 1024, 0);
+
+                    match self.stream.read(&mut buffer[initial_len..]) {
+                        Ok(0) => {
+                            // End of stream - remove the unused space we reserved
+                            buffer.truncate(initial_len);
+                            return None;
+                        }
+                        Ok(n) => {
+                            // Adjust buffer to actual bytes read, then try to parse again
+                            buffer.truncate(initial_len + n);
+                        }
+                        Err(e) => {
+                            // Remove the unused space we reserved
+                            buffer.truncate(initial_len);
+                            return Some(Err(ParseError::IoError(e)));
+                        }
                     }
                 }
+                Err(e) => return Some(Err(e)),
             }
-            Err(e) => Some(Err(e)),
         }
     }
 }
-- 
2.43.0


From 98ee8579f2def7b511908781b8bade66483f29c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:36 +0000
Subject: [PATCH 06/88] fix: refuse over-long strings and binary data when
 encoding MQTT 3 packets

Their 16-bit length prefix was silently truncated, corrupting the packet.
---
 src/mqtt_serde/mqttv3/connect.rs     | 17 ++++++++---------
 src/mqtt_serde/mqttv3/publish.rs     |  5 +++--
 src/mqtt_serde/mqttv3/subscribe.rs   |  5 +++--
 src/mqtt_serde/mqttv3/unsubscribe.rs |  5 +++--
 src/mqtt_serde/parser/mod.rs         |  2 +-
 5 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/mqtt_serde/mqttv3/connect.rs b/src/mqtt_serde/mqttv3/connect.rs
index f6b3ea6..819ef95 100644
--- a/src/mqtt_serde/mqttv3/connect.rs
+++ b/src/mqtt_serde/mqttv3/connect.rs
@@ -2,11 +2,12 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
+use crate::mqtt_serde::{encode_binary_data, encode_utf8_string};
 
 /// Represents the Will message and its properties.
 #[derive(Debug, PartialEq, Eq, Clone, Serialize, Deserialize)]
@@ -55,7 +56,7 @@ impl MqttControlPacket for MqttConnect {
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
         let mut vh = Vec::new();
         // Protocol Name
-        vh.extend(Utf8String::encode(&self.protocol_name));
+        vh.extend(encode_utf8_string(&self.protocol_name)?);
         // Protocol Version
         vh.push(self.protocol_version);
 
@@ -86,23 +87,21 @@ impl MqttControlPacket for MqttConnect {
 
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
-        payload.extend(Utf8String::encode(&self.client_id));
+        payload.extend(encode_utf8_string(&self.client_id)?);
 
         if let Some(will) = &self.will {
-            payload.extend(Utf8String::encode(&will.topic));
+            payload.extend(encode_utf8_string(&will.topic)?);
             // Will message is a byte array, needs length prefix
-            payload.extend_from_slice(&TwoByteInteger::encode(will.message.len() as u16));
-            payload.extend_from_slice(&will.message);
+            payload.extend(encode_binary_data(&will.message)?);
         }
 
         if let Some(username) = &self.username {
-            payload.extend(Utf8String::encode(username));
+            payload.extend(encode_utf8_string(username)?);
         }
 
         if let Some(password) = &self.password {
             // Password is a byte array, needs length prefix
-            payload.extend_from_slice(&TwoByteInteger::encode(password.len() as u16));
-            payload.extend_from_slice(password);
+            payload.extend(encode_binary_data(password)?);
         }
 
         Ok(payload)
diff --git a/src/mqtt_serde/mqttv3/publish.rs b/src/mqtt_serde/mqttv3/publish.rs
index b4a7099..d29a09f 100644
--- a/src/mqtt_serde/mqttv3/publish.rs
+++ b/src/mqtt_serde/mqttv3/publish.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_utf8_string;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -55,7 +56,7 @@ impl MqttControlPacket for MqttPublish {
     }
 
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
-        let mut vh = Utf8String::encode(&self.topic_name);
+        let mut vh = encode_utf8_string(&self.topic_name)?;
         if self.qos > 0 {
             let msg_id = self.message_id.ok_or_else(|| {
                 ParseError::ParseError("Message ID is required for QoS > 0".to_string())
diff --git a/src/mqtt_serde/mqttv3/subscribe.rs b/src/mqtt_serde/mqttv3/subscribe.rs
index 001b4c1..6e46a26 100644
--- a/src/mqtt_serde/mqttv3/subscribe.rs
+++ b/src/mqtt_serde/mqttv3/subscribe.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_utf8_string;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -55,7 +56,7 @@ impl MqttControlPacket for MqttSubscribe {
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
         for sub in &self.subscriptions {
-            payload.extend(Utf8String::encode(&sub.topic_filter));
+            payload.extend(encode_utf8_string(&sub.topic_filter)?);
             // QoS must be 0, 1, or 2.
             if sub.qos > 2 {
                 return Err(ParseError::ParseError("Invalid QoS level".to_string()));
diff --git a/src/mqtt_serde/mqttv3/unsubscribe.rs b/src/mqtt_serde/mqttv3/unsubscribe.rs
index 3a422d4..1c044e7 100644
--- a/src/mqtt_serde/mqttv3/unsubscribe.rs
+++ b/src/mqtt_serde/mqttv3/unsubscribe.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_utf8_string;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -47,7 +48,7 @@ impl MqttControlPacket for MqttUnsubscribe {
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
         for topic in &self.topic_filters {
-            payload.extend(Utf8String::encode(topic));
+            payload.extend(encode_utf8_string(topic)?);
         }
         Ok(payload)
     }
diff --git a/src/mqtt_serde/parser/mod.rs b/src/mqtt_serde/parser/mod.rs
index 2fffba3..0a2687d 100644
--- a/src/mqtt_serde/parser/mod.rs
+++ b/src/mqtt_serde/parser/mod.rs
@@ -111,7 +111,7 @@ pub fn read_string(buffer: &[u8]) -> Result<(String, usize), ParseError> {
 }
 
 pub fn write_string(s: &str) -> Result<Vec<u8>, ParseError> {
-    Ok(Utf8String::encode(s))
+    crate::mqtt_serde::encode_utf8_string(s)
 }
 
 pub fn read_u8(buffer: &[u8]) -> Result<u8, ParseError> {
-- 
2.43.0


From 3425b3ee1d9db423ce24c58ff8377fc7a21a0d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:52 +0000
Subject: [PATCH 07/88] fix: reject the null character when decoding UTF-8
 strings (strict mode)

---
 src/mqtt_serde/base_data.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mqtt_serde/base_data.rs b/src/mqtt_serde/base_data.rs
index ee0b8ef..129023e 100644
--- a/src/mqtt_serde/base_data.rs
+++ b/src/mqtt_serde/base_data.rs
@@ -142,6 +142,15 @@ impl Utf8String {
     pub fn decode(bytes: &[u8]) -> Result<(String, usize), ParseError> {
         let (data, len) = BinaryData::decode(bytes)?;
         let s = String::from_utf8(data).map_err(|e| ParseError::Utf8Error(e.utf8_error()))?;
+
+        // [MQTT-1.5.4-2] (MQTT 3.1.1: [MQTT-1.5.3-2]) the null character is not allowed
+        #[cfg(feature = "strict-protocol-compliance")]
+        if s.contains('\0') {
+            return Err(ParseError::ParseError(
+                "UTF-8 string contains null character (U+0000)".to_string(),
+            ));
+        }
+
         Ok((s, len))
     }
 }
-- 
2.43.0


From 66ef0a2c97507f5b406e863b9ad0d3dafb922d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:18 +0000
Subject: [PATCH 08/88] fix: refuse QoS, retain handling and subscription
 identifiers that do not fit their wire field

They spilled into neighbouring flag bits or produced a five-byte variable integer.
---
 src/mqtt_serde/mqttv3/connect.rs           | 3 +++
 src/mqtt_serde/mqttv3/publish.rs           | 3 +++
 src/mqtt_serde/mqttv5/common/properties.rs | 4 ++++
 src/mqtt_serde/mqttv5/connect.rs           | 5 +++++
 src/mqtt_serde/mqttv5/publish.rs           | 3 +++
 src/mqtt_serde/mqttv5/subscribe.rs         | 5 +++++
 6 files changed, 23 insertions(+)

diff --git a/src/mqtt_serde/mqttv3/connect.rs b/src/mqtt_serde/mqttv3/connect.rs
index 819ef95..8f87ab9 100644
--- a/src/mqtt_serde/mqttv3/connect.rs
+++ b/src/mqtt_serde/mqttv3/connect.rs
@@ -54,6 +54,9 @@ impl MqttControlPacket for MqttConnect {
     }
 
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
+        if self.will.as_ref().is_some_and(|w| w.qos > 2) {
+            return Err(ParseError::ParseError("Will QoS cannot be 3".to_string()));
+        }
         let mut vh = Vec::new();
         // Protocol Name
         vh.extend(encode_utf8_string(&self.protocol_name)?);
diff --git a/src/mqtt_serde/mqttv3/publish.rs b/src/mqtt_serde/mqttv3/publish.rs
index d29a09f..88a52fb 100644
--- a/src/mqtt_serde/mqttv3/publish.rs
+++ b/src/mqtt_serde/mqttv3/publish.rs
@@ -56,6 +56,9 @@ impl MqttControlPacket for MqttPublish {
     }
 
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
+        if self.qos > 2 {
+            return Err(ParseError::ParseError("Invalid QoS level".to_string()));
+        }
         let mut vh = encode_utf8_string(&self.topic_name)?;
         if self.qos > 0 {
             let msg_id = self.message_id.ok_or_else(|| {
diff --git a/src/mqtt_serde/mqttv5/common/properties.rs b/src/mqtt_serde/mqttv5/common/properties.rs
index 61bac52..edd2c62 100644
--- a/src/mqtt_serde/mqttv5/common/properties.rs
+++ b/src/mqtt_serde/mqttv5/common/properties.rs
@@ -94,6 +94,10 @@ impl Property {
                 bytes.extend(crate::mqtt_serde::encode_binary_data(val)?);
             }
             Property::SubscriptionIdentifier(val) => {
+                // MQTT 5.0: 1.5.5, the largest value a Variable Byte Integer can carry
+                if *val > 268_435_455 {
+                    return Err(ParseError::InvalidVariableByteInteger);
+                }
                 bytes.push(property_id(PropertyID::SubscriptionIdentifier));
                 bytes.extend(crate::mqtt_serde::encode_variable_length(*val as usize));
             }
diff --git a/src/mqtt_serde/mqttv5/connect.rs b/src/mqtt_serde/mqttv5/connect.rs
index 9af0647..18d2d05 100644
--- a/src/mqtt_serde/mqttv5/connect.rs
+++ b/src/mqtt_serde/mqttv5/connect.rs
@@ -86,6 +86,11 @@ impl MqttControlPacket for MqttConnect {
     }
 
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
+        if self.will.as_ref().is_some_and(|w| w.will_qos > 3) {
+            return Err(ParseError::ParseError(
+                "Will QoS does not fit the connect flags".to_string(),
+            ));
+        }
         let mut bytes = Vec::new();
 
         // MQTT 5.0: 3.1.2.1 protocol name
diff --git a/src/mqtt_serde/mqttv5/publish.rs b/src/mqtt_serde/mqttv5/publish.rs
index b31ed7f..e2dce72 100644
--- a/src/mqtt_serde/mqttv5/publish.rs
+++ b/src/mqtt_serde/mqttv5/publish.rs
@@ -82,6 +82,9 @@ impl MqttControlPacket for MqttPublish {
     }
 
     fn variable_header(&self) -> Result<Vec<u8>, parser::ParseError> {
+        if self.qos > 2 {
+            return Err(ParseError::ParseError("Invalid QoS level".to_string()));
+        }
         let mut bytes = Vec::new();
         // MQTT 5.0: 3.3.2.1 Topic Name
         bytes.extend(crate::mqtt_serde::encode_utf8_string(&self.topic_name)?);
diff --git a/src/mqtt_serde/mqttv5/subscribe.rs b/src/mqtt_serde/mqttv5/subscribe.rs
index cea44e3..f053913 100644
--- a/src/mqtt_serde/mqttv5/subscribe.rs
+++ b/src/mqtt_serde/mqttv5/subscribe.rs
@@ -88,6 +88,11 @@ impl TopicSubscription {
 
     /// Encodes this topic subscription to bytes for inclusion in SUBSCRIBE payload.
     pub fn to_bytes(&self) -> Result<Vec<u8>, ParseError> {
+        if self.qos > 2 || self.retain_handling > 2 {
+            return Err(ParseError::ParseError(
+                "SUBSCRIBE QoS and Retain Handling must be 0, 1 or 2".to_string(),
+            ));
+        }
         let mut bytes = Vec::new();
 
         // Topic Filter (UTF-8 String)
-- 
2.43.0


From 06592fac7420a01f0f1e33831b085b63e56e05cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:36 +0000
Subject: [PATCH 09/88] fix: refuse to encode a packet longer than the
 protocol's maximum remaining length

---
 src/mqtt_serde/control_packet.rs | 2 ++
 src/mqtt_serde/mod.rs            | 8 ++++++++
 src/mqtt_serde/mqttv5/publish.rs | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/src/mqtt_serde/control_packet.rs b/src/mqtt_serde/control_packet.rs
index d4d026b..e0e9e29 100644
--- a/src/mqtt_serde/control_packet.rs
+++ b/src/mqtt_serde/control_packet.rs
@@ -275,6 +275,7 @@ pub trait MqttControlPacket {
         let vhdr = self.variable_header()?;
         let payload = self.payload()?;
         let remaining_length = vhdr.len() + payload.len();
+        crate::mqtt_serde::check_remaining_length(remaining_length)?;
         bytes.extend(self.fixed_header(remaining_length));
         bytes.extend(vhdr);
         bytes.extend(payload);
@@ -286,6 +287,7 @@ pub trait MqttControlPacket {
         let vhdr = self.variable_header()?;
         let payload = self.payload()?;
         let remaining_length = vhdr.len() + payload.len();
+        crate::mqtt_serde::check_remaining_length(remaining_length)?;
         let fixed_hdr = self.fixed_header(remaining_length);
 
         // Pre-allocate the entire packet size to avoid intermediate reallocations
diff --git a/src/mqtt_serde/mod.rs b/src/mqtt_serde/mod.rs
index b4bb023..a8f5ec2 100644
--- a/src/mqtt_serde/mod.rs
+++ b/src/mqtt_serde/mod.rs
@@ -165,6 +165,14 @@ pub(crate) fn validate_shared_subscription(topic_filter: &str) -> Result<(), Par
     Ok(())
 }
 
+// A packet whose Remaining Length does not fit a Variable Byte Integer cannot be framed
+pub(crate) fn check_remaining_length(len: usize) -> Result<(), ParseError> {
+    if len > 268_435_455 {
+        return Err(ParseError::InvalidLength);
+    }
+    Ok(())
+}
+
 // MQTT 5.0 Spec, 1.5.5
 fn encode_variable_length(len: usize) -> Vec<u8> {
     VariableByteInteger::encode(len as u32)
diff --git a/src/mqtt_serde/mqttv5/publish.rs b/src/mqtt_serde/mqttv5/publish.rs
index e2dce72..88b96cf 100644
--- a/src/mqtt_serde/mqttv5/publish.rs
+++ b/src/mqtt_serde/mqttv5/publish.rs
@@ -118,6 +118,7 @@ impl MqttControlPacket for MqttPublish {
 
         let vhdr = self.variable_header()?;
         let remaining_length = vhdr.len() + self.payload.len();
+        crate::mqtt_serde::check_remaining_length(remaining_length)?;
 
         bytes.extend(self.fixed_header(remaining_length));
         bytes.extend(vhdr);
@@ -232,6 +233,7 @@ impl MqttControlPacket for MqttPublish {
     fn to_bytes(&self) -> Result<Vec<u8>, ParseError> {
         let vhdr = self.variable_header()?;
         let remaining_length = vhdr.len() + self.payload.len();
+        crate::mqtt_serde::check_remaining_length(remaining_length)?;
         let fixed_hdr = self.fixed_header(remaining_length);
 
         let mut bytes = Vec::with_capacity(fixed_hdr.len() + remaining_length);
-- 
2.43.0


From e6bc9553b0830a46b8a8ae0a6915ee7ac4058e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 10/88] fix: never allocate a packet identifier that is still
 in use

---
 src/mqtt_client/engine.rs   | 35 ++++++++++++++++++++++++++++-------
 src/mqtt_client/inflight.rs |  5 +++++
 src/priority_queue.rs       |  5 +++++
 3 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index ba2b7d6..8d17bde 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1260,14 +1260,35 @@ impl MqttEngine {
         }
     }
 
+    /// Whether a packet identifier belongs to a message that is still queued or
+    /// unacknowledged and therefore must not be handed out again.
+    fn packet_id_in_use(&self, packet_id: u16) -> bool {
+        self.inflight_queue.contains(packet_id)
+            || self.priority_queue.iter().any(|packet| match packet {
+                MqttPacket::Publish5(p) => p.packet_id == Some(packet_id),
+                MqttPacket::Publish3(p) => p.message_id == Some(packet_id),
+                _ => false,
+            })
+    }
+
+    /// Allocate the next packet identifier that is not currently in use.
     pub fn next_packet_id(&mut self) -> Result<u16, MqttClientError> {
-        let session = self
-            .session
-            .as_mut()
-            .ok_or(MqttClientError::ProtocolViolation {
-                message: "No session available for packet ID allocation".into(),
-            })?;
-        Ok(session.next_packet_id())
+        for _ in 0..u16::MAX {
+            let session = self
+                .session
+                .as_mut()
+                .ok_or(MqttClientError::ProtocolViolation {
+                    message: "No session available for packet ID allocation".into(),
+                })?;
+            let packet_id = session.next_packet_id();
+            if !self.packet_id_in_use(packet_id) {
+                return Ok(packet_id);
+            }
+        }
+        Err(MqttClientError::BufferFull {
+            buffer_type: "packet_id".to_string(),
+            capacity: u16::MAX as usize,
+        })
     }
 }
 
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index c708c45..0a9e2b5 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -207,6 +207,11 @@ impl InflightQueue {
             .map(|&(_, sent_at)| sent_at + self.retransmission_timeout)
     }
 
+    /// Whether a message with this packet identifier is still unacknowledged
+    pub fn contains(&self, packet_id: u16) -> bool {
+        self.entries.contains_key(&packet_id)
+    }
+
     pub fn clear(&mut self) {
         self.entries.clear();
         if self.mqtt_version != 5 {
diff --git a/src/priority_queue.rs b/src/priority_queue.rs
index 7698d23..4cab4ea 100644
--- a/src/priority_queue.rs
+++ b/src/priority_queue.rs
@@ -80,6 +80,11 @@ where
         Some((prio, item))
     }
 
+    /// Iterates over the queued elements, lowest priority first.
+    pub fn iter(&self) -> impl Iterator<Item = &T> {
+        self.map.values().flatten()
+    }
+
     /// Current number of elements in the queue.
     pub fn len(&self) -> usize {
         self.size
-- 
2.43.0


From e9e4f9bbd41d616e1449e40f52efd6511932266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 11/88] fix: a PUBREC with an error reason code ends the QoS 2
 exchange

---
 src/mqtt_client/engine.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 8d17bde..24de75b 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1086,7 +1086,18 @@ impl MqttEngine {
                 events.push(MqttEvent::PingResponse(PingResult { success: true }));
             }
             MqttPacket::PubRec5(rec) => {
-                if let Some(mut entry) = self.inflight_queue.acknowledge(rec.packet_id) {
+                if rec.reason_code >= 0x80 {
+                    // The receiver refused the message: the exchange ends here and
+                    // no PUBREL follows (MQTT 5.0, section 4.3.3).
+                    if let Some(entry) = self.inflight_queue.acknowledge(rec.packet_id) {
+                        events.push(MqttEvent::Published(PublishResult {
+                            packet_id: Some(rec.packet_id),
+                            reason_code: Some(rec.reason_code),
+                            properties: Some(rec.properties),
+                            qos: entry.qos,
+                        }));
+                    }
+                } else if let Some(mut entry) = self.inflight_queue.acknowledge(rec.packet_id) {
                     let rel = MqttPacket::PubRel5(MqttPubRel::new(rec.packet_id, 0, Vec::new()));
                     // Update entry to store PUBREL for retransmission
                     entry.packet = rel.clone();
-- 
2.43.0


From 894a7698d90592aa45863e8f36f3aa9b3945b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 12/88] fix: a QoS 2 publish holds its receive-maximum slot
 until PUBCOMP

---
 src/mqtt_client/inflight.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 0a9e2b5..6534f89 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -44,7 +44,7 @@ pub struct InflightQueue {
     mqtt_version: u8,
     /// Default retransmission timeout
     retransmission_timeout: Duration,
-    /// Current number of PUBLISH packets in the queue (for flow control)
+    /// Current number of unfinished QoS 1/2 publish exchanges in the queue (for flow control)
     publish_count: usize,
 }
 
@@ -64,6 +64,18 @@ impl InflightQueue {
         }
     }
 
+    /// A publish exchange counts against Receive Maximum until its PUBACK or
+    /// PUBCOMP arrives, so a QoS 2 message waiting for PUBCOMP still counts.
+    fn holds_quota(packet: &MqttPacket) -> bool {
+        matches!(
+            packet,
+            MqttPacket::Publish5(_)
+                | MqttPacket::Publish3(_)
+                | MqttPacket::PubRel5(_)
+                | MqttPacket::PubRel3(_)
+        )
+    }
+
     /// Check if another PUBLISH message can be sent
     pub fn can_push_publish(&self) -> bool {
         self.publish_count < self.receive_maximum as usize
@@ -108,7 +120,7 @@ impl InflightQueue {
         }
 
         let now = Instant::now();
-        if matches!(packet, MqttPacket::Publish5(_) | MqttPacket::Publish3(_)) {
+        if Self::holds_quota(&packet) {
             self.publish_count += 1;
         }
 
@@ -133,10 +145,7 @@ impl InflightQueue {
     /// Acknowledge a message (PUBACK, PUBREL, etc.)
     pub fn acknowledge(&mut self, packet_id: u16) -> Option<InflightEntry> {
         if let Some(entry) = self.entries.remove(&packet_id) {
-            if matches!(
-                entry.packet,
-                MqttPacket::Publish5(_) | MqttPacket::Publish3(_)
-            ) {
+            if Self::holds_quota(&entry.packet) {
                 self.publish_count -= 1;
             }
             Some(entry)
-- 
2.43.0


From 624fe61e3dfd1d336dbd7811c099936053511e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 13/88] fix: receive-maximum state does not leak from one
 connection or session to the next

---
 src/mqtt_client/engine.rs   | 35 ++++++++++++++++++++++++++++-------
 src/mqtt_client/inflight.rs | 16 ++++++++++++++++
 2 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 24de75b..364d08b 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -214,6 +214,10 @@ pub struct MqttEngine {
 
     events: Vec<MqttEvent>,
 
+    /// When the CONNECT of the current handshake was queued. Anything sent before
+    /// it belongs to an earlier network connection.
+    connect_started_at: Option<Instant>,
+
     // Reconnection state
     reconnect_attempts: u32,
     next_reconnect_at: Option<Instant>,
@@ -256,6 +260,7 @@ impl MqttEngine {
             outgoing_buffer: VecDeque::new(),
             stream_retransmissions: VecDeque::new(),
             events: Vec::new(),
+            connect_started_at: None,
             reconnect_attempts: 0,
             next_reconnect_at: None,
             reconnect_base_delay,
@@ -556,6 +561,7 @@ impl MqttEngine {
         if self.session.is_none() {
             self.session = Some(ClientSession::new());
         }
+        self.connect_started_at = Some(Instant::now());
 
         let packet = if self.options.mqtt_version == 5 {
             let connect = connectv5::MqttConnect::new(
@@ -932,13 +938,28 @@ impl MqttEngine {
                     properties: ack.properties.clone(),
                 }));
 
-                // Update receive_maximum from CONNACK properties if present
-                if let Some(props) = &ack.properties {
-                    for prop in props {
-                        if let Property::ReceiveMaximum(max) = prop {
-                            self.inflight_queue.update_receive_maximum(*max);
-                            break;
-                        }
+                // Receive Maximum applies to this network connection only: without
+                // the property the limit goes back to the configured one.
+                let receive_maximum = ack
+                    .properties
+                    .iter()
+                    .flatten()
+                    .find_map(|prop| match prop {
+                        Property::ReceiveMaximum(max) => Some(*max),
+                        _ => None,
+                    })
+                    .unwrap_or(match self.options.receive_maximum {
+                        0 => u16::MAX,
+                        max => max,
+                    });
+                self.inflight_queue.update_receive_maximum(receive_maximum);
+
+                // Without session resumption the exchanges of an earlier connection
+                // cannot complete: discard them so they stop holding packet
+                // identifiers and flow-control slots (MQTT-3.2.2-5).
+                if self.is_connected && !ack.session_present {
+                    if let Some(started_at) = self.connect_started_at {
+                        self.inflight_queue.discard_sent_before(started_at);
                     }
                 }
 
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 6534f89..716aff2 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -221,6 +221,22 @@ impl InflightQueue {
         self.entries.contains_key(&packet_id)
     }
 
+    /// Forget every entry sent before `cutoff`, releasing its flow-control slot.
+    ///
+    /// Used when the server did not resume the session: those exchanges can never
+    /// be completed.
+    pub fn discard_sent_before(&mut self, cutoff: Instant) {
+        let stale: Vec<u16> = self
+            .entries
+            .values()
+            .filter(|e| e.sent_at < cutoff)
+            .map(|e| e.packet_id)
+            .collect();
+        for packet_id in stale {
+            self.acknowledge(packet_id);
+        }
+    }
+
     pub fn clear(&mut self) {
         self.entries.clear();
         if self.mqtt_version != 5 {
-- 
2.43.0


From 4136ef4878823071738fb56caad57342db8c2ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 14/88] fix: acknowledgements are not dropped when the outgoing
 buffer is full

---
 src/mqtt_client/engine.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 364d08b..f0be45d 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -389,8 +389,16 @@ impl MqttEngine {
                     self.events.extend(packet_events);
                     // Single-stream transports (TCP/TLS, QUIC control stream) send
                     // responses back over the same shared outgoing buffer.
+                    // They are protocol obligations (a dropped PUBREL or PUBACK stalls
+                    // the exchange for good), so the command limit does not apply.
                     for response in responses {
-                        let _ = self.enqueue_packet(response);
+                        match response.to_bytes() {
+                            Ok(bytes) => {
+                                self.outgoing_buffer.push_back(bytes);
+                                self.last_packet_sent = Instant::now();
+                            }
+                            Err(e) => self.events.push(MqttEvent::Error(MqttClientError::from(e))),
+                        }
                     }
                 }
                 Ok(None) => break,
-- 
2.43.0


From 7e400c005150f41eb4676e2b6961e0cfcb73aa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 15/88] fix: a SUBSCRIBE or UNSUBSCRIBE refused by the outgoing
 buffer leaves no inflight entry

---
 src/mqtt_client/engine.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index f0be45d..9f243ab 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -762,8 +762,9 @@ impl MqttEngine {
             MqttPacket::Subscribe3(subscribev3::MqttSubscribe::new(pid, v3_subs))
         };
 
-        self.inflight_queue.push(pid, packet.clone(), 1)?;
-        self.enqueue_packet(packet)?;
+        // Track the request only once it is really queued.
+        self.enqueue_packet(packet.clone())?;
+        self.inflight_queue.push(pid, packet, 1)?;
         Ok(pid)
     }
 
@@ -786,8 +787,9 @@ impl MqttEngine {
             MqttPacket::Unsubscribe3(unsubscribev3::MqttUnsubscribe::new(pid, command.topics))
         };
 
-        self.inflight_queue.push(pid, packet.clone(), 1)?;
-        self.enqueue_packet(packet)?;
+        // Track the request only once it is really queued.
+        self.enqueue_packet(packet.clone())?;
+        self.inflight_queue.push(pid, packet, 1)?;
         Ok(pid)
     }
 
-- 
2.43.0


From 7f3c4d8fc8e8529768836fefbba5fe7461f10d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:36 +0000
Subject: [PATCH 16/88] fix: the engine's CONNECT carries the configured will,
 credentials and MQTT 5 properties

---
 src/mqtt_client/engine.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 9f243ab..b90436c 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -576,24 +576,50 @@ impl MqttEngine {
                 self.options.client_id.clone(),
                 self.options.username.clone(),
                 self.options.password.clone(),
-                None, // Will
+                self.options.will.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
-                Vec::new(), // Properties
+                self.connect_properties(),
             );
             MqttPacket::Connect5(connect)
         } else {
-            let connect = connectv3::MqttConnect::new(
+            let mut connect = connectv3::MqttConnect::new(
                 self.options.client_id.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
             );
+            connect.username = self.options.username.clone();
+            connect.password = self.options.password.clone();
+            connect.will = self.options.will.as_ref().map(|will| connectv3::Will {
+                retain: will.will_retain,
+                qos: will.will_qos,
+                topic: will.will_topic.clone(),
+                message: will.will_message.clone(),
+            });
             MqttPacket::Connect3(connect)
         };
 
         let _ = self.enqueue_packet(packet);
     }
 
+    /// CONNECT properties (MQTT v5) requested through the options.
+    fn connect_properties(&self) -> Vec<Property> {
+        let mut properties = Vec::new();
+        if let Some(interval) = self.options.session_expiry_interval {
+            properties.push(Property::SessionExpiryInterval(interval));
+        }
+        if let Some(size) = self.options.maximum_packet_size {
+            properties.push(Property::MaximumPacketSize(size));
+        }
+        if let Some(request) = self.options.request_response_information {
+            properties.push(Property::RequestResponseInformation(request as u8));
+        }
+        if let Some(request) = self.options.request_problem_information {
+            properties.push(Property::RequestProblemInformation(request as u8));
+        }
+        properties
+    }
+
     /// Queue a PUBLISH packet.
     ///
     /// - **QoS 0**: ID is usually None (unless needed for tracing).
-- 
2.43.0


From e405a198d25f2eedc03d87017b579dbfcfeec5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 17/88] fix: packets resent on session resumption keep their
 original send order

---
 src/mqtt_client/inflight.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 716aff2..1ce82d1 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -24,6 +24,8 @@ pub struct InflightEntry {
     /// stream). Retransmissions are routed back onto this same channel so the QoS
     /// 1/2 handshake never crosses streams.
     pub stream: Option<u64>,
+    /// Position in the order in which the queue's packets were first sent
+    pub sequence: u64,
 }
 
 /// A queue for managing inflight QoS 1 and QoS 2 messages.
@@ -46,6 +48,8 @@ pub struct InflightQueue {
     retransmission_timeout: Duration,
     /// Current number of unfinished QoS 1/2 publish exchanges in the queue (for flow control)
     publish_count: usize,
+    /// Sequence number of the next entry
+    next_sequence: u64,
 }
 
 impl InflightQueue {
@@ -61,6 +65,7 @@ impl InflightQueue {
             mqtt_version,
             retransmission_timeout,
             publish_count: 0,
+            next_sequence: 0,
         }
     }
 
@@ -131,7 +136,9 @@ impl InflightQueue {
             retry_count: 0,
             qos,
             stream,
+            sequence: self.next_sequence,
         };
+        self.next_sequence += 1;
 
         self.entries.insert(packet_id, entry);
         // Only track deadlines for MQTT v3 which needs timeout-based retransmission
@@ -199,8 +206,9 @@ impl InflightQueue {
     /// Get all messages to be re-sent upon reconnection (MQTT 3.1.1 and 5.0 with CleanStart=0)
     pub fn get_all_for_reconnect(&self) -> Vec<MqttPacket> {
         let mut all = self.entries.values().collect::<Vec<_>>();
-        // Sort by retry_count or original sent time if needed, but here we just send
-        all.sort_by_key(|e| e.sent_at);
+        // Original send order; `sent_at` cannot tell apart packets that were
+        // retransmitted in the same tick.
+        all.sort_by_key(|e| e.sequence);
         all.into_iter().map(|e| e.packet.clone()).collect()
     }
 
-- 
2.43.0


From bd8845d42cb672ea51b13365a048a461428906a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 18/88] fix: a repeated QoS 2 PUBLISH is acknowledged but not
 delivered to the application twice

---
 src/mqtt_client/engine.rs | 50 ++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index b90436c..80ae4cd 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -16,7 +16,7 @@ use rustls::{
 };
 #[cfg(feature = "quic-proto")]
 use std::collections::HashMap;
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 use std::time::{Duration, Instant};
 #[cfg(feature = "quic-proto")]
 use std::{
@@ -212,6 +212,11 @@ pub struct MqttEngine {
     // Pending operations tracking (state only)
     inflight_queue: InflightQueue,
 
+    /// Packet identifiers of QoS 2 messages already delivered to the application
+    /// whose PUBREL has not arrived yet (automatic acknowledgement only). A repeat
+    /// is acknowledged but not delivered again.
+    received_qos2: HashSet<u16>,
+
     events: Vec<MqttEvent>,
 
     /// When the CONNECT of the current handshake was queued. Anything sent before
@@ -259,6 +264,7 @@ impl MqttEngine {
             parser,
             outgoing_buffer: VecDeque::new(),
             stream_retransmissions: VecDeque::new(),
+            received_qos2: HashSet::new(),
             events: Vec::new(),
             connect_started_at: None,
             reconnect_attempts: 0,
@@ -994,6 +1000,7 @@ impl MqttEngine {
                 // cannot complete: discard them so they stop holding packet
                 // identifiers and flow-control slots (MQTT-3.2.2-5).
                 if self.is_connected && !ack.session_present {
+                    self.received_qos2.clear();
                     if let Some(started_at) = self.connect_started_at {
                         self.inflight_queue.discard_sent_before(started_at);
                     }
@@ -1022,6 +1029,10 @@ impl MqttEngine {
                     properties: None,
                 }));
 
+                if self.is_connected && !ack.session_present {
+                    self.received_qos2.clear();
+                }
+
                 // Handle session resumption: resend pending messages
                 // Only when server confirms session resumption (session_present=true)
                 if ack.session_present {
@@ -1057,11 +1068,13 @@ impl MqttEngine {
             MqttPacket::Publish5(p) => {
                 let qos = p.qos;
                 let pid = p.packet_id;
-                events.push(MqttEvent::PublishReceived {
-                    packet_id: pid,
-                    stream,
-                });
-                events.push(MqttEvent::MessageReceived(p));
+                if self.is_new_delivery(qos, pid) {
+                    events.push(MqttEvent::PublishReceived {
+                        packet_id: pid,
+                        stream,
+                    });
+                    events.push(MqttEvent::MessageReceived(p));
+                }
 
                 if self.options.auto_ack && qos == 1 {
                     if let Some(pid) = pid {
@@ -1086,11 +1099,13 @@ impl MqttEngine {
                     p.dup,
                     Vec::new(),
                 );
-                events.push(MqttEvent::PublishReceived {
-                    packet_id: pid,
-                    stream,
-                });
-                events.push(MqttEvent::MessageReceived(p5));
+                if self.is_new_delivery(qos, pid) {
+                    events.push(MqttEvent::PublishReceived {
+                        packet_id: pid,
+                        stream,
+                    });
+                    events.push(MqttEvent::MessageReceived(p5));
+                }
 
                 if self.options.auto_ack && qos == 1 {
                     if let Some(pid) = pid {
@@ -1184,6 +1199,7 @@ impl MqttEngine {
                 }
             }
             MqttPacket::PubRel5(rel) => {
+                self.received_qos2.remove(&rel.packet_id);
                 events.push(MqttEvent::PubRelReceived {
                     packet_id: rel.packet_id,
                     stream,
@@ -1197,6 +1213,7 @@ impl MqttEngine {
                 }
             }
             MqttPacket::PubRel3(rel) => {
+                self.received_qos2.remove(&rel.message_id);
                 events.push(MqttEvent::PubRelReceived {
                     packet_id: rel.message_id,
                     stream,
@@ -1236,6 +1253,17 @@ impl MqttEngine {
         (events, responses)
     }
 
+    /// Whether an incoming PUBLISH must be handed to the application, i.e. it is
+    /// not a repeat of a QoS 2 message that was delivered but not released yet.
+    fn is_new_delivery(&mut self, qos: u8, packet_id: Option<u16>) -> bool {
+        match packet_id {
+            Some(packet_id) if qos == 2 && self.options.auto_ack => {
+                self.received_qos2.insert(packet_id)
+            }
+            _ => true,
+        }
+    }
+
     fn pingreq_packet(&self) -> MqttPacket {
         if self.options.mqtt_version == 5 {
             MqttPacket::PingReq5(pingreqv5::MqttPingReq::new())
-- 
2.43.0


From 2a003429396f34a08c058f44f5db6d10d239997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:34 +0000
Subject: [PATCH 19/88] fix: an unanswered PINGREQ of an earlier connection
 does not time out the next one

---
 src/mqtt_client/engine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 80ae4cd..d4b1741 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -576,6 +576,8 @@ impl MqttEngine {
             self.session = Some(ClientSession::new());
         }
         self.connect_started_at = Some(Instant::now());
+        // A PINGREQ of an earlier connection will never be answered on this one.
+        self.ping_sent_at = None;
 
         let packet = if self.options.mqtt_version == 5 {
             let connect = connectv5::MqttConnect::new(
-- 
2.43.0


From b63e316024a53b4cc7d5deb15fa1f37792215062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 20/88] fix: the server's Keep Alive replaces the requested one
 (MQTT 5)

---
 src/mqtt_client/engine.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index d4b1741..7d5b019 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -197,6 +197,9 @@ pub struct MqttEngine {
     /// Timestamp of the outstanding PINGREQ, if any. A connection timeout is
     /// only valid after this request has not received a PINGRESP in time.
     ping_sent_at: Option<Instant>,
+    /// Server Keep Alive of the current connection's CONNACK (MQTT v5), which
+    /// replaces the requested interval.
+    server_keep_alive: Option<u16>,
 
     // Buffers and Parsers
     parser: MqttParser,
@@ -261,6 +264,7 @@ impl MqttEngine {
             last_packet_sent: Instant::now(),
             last_packet_received: Instant::now(),
             ping_sent_at: None,
+            server_keep_alive: None,
             parser,
             outgoing_buffer: VecDeque::new(),
             stream_retransmissions: VecDeque::new(),
@@ -422,6 +426,12 @@ impl MqttEngine {
         self.options.mqtt_version
     }
 
+    /// Keep-alive interval of the current connection.
+    fn keep_alive(&self) -> Duration {
+        let seconds = self.server_keep_alive.unwrap_or(self.options.keep_alive);
+        Duration::from_secs(seconds as u64)
+    }
+
     /// Process time-dependent logic (keep-alive, timeouts, retransmissions).
     ///
     /// This should be called at every tick of the run loop or when the `next_tick_at` deadline expires.
@@ -443,7 +453,7 @@ impl MqttEngine {
             return self.take_events();
         }
 
-        let keep_alive = Duration::from_secs(self.options.keep_alive as u64);
+        let keep_alive = self.keep_alive();
 
         // 1. A PINGRESP is only required after we actually send a PINGREQ. In
         // particular, QoS 0 publishing may be continuously outbound and have
@@ -524,7 +534,7 @@ impl MqttEngine {
         }
 
         let mut next = None;
-        let keep_alive = Duration::from_secs(self.options.keep_alive as u64);
+        let keep_alive = self.keep_alive();
 
         // 2. A PINGREQ response timeout takes precedence over another PINGREQ.
         if keep_alive > Duration::ZERO {
@@ -982,6 +992,15 @@ impl MqttEngine {
                     properties: ack.properties.clone(),
                 }));
 
+                self.server_keep_alive = ack
+                    .properties
+                    .iter()
+                    .flatten()
+                    .find_map(|prop| match prop {
+                        Property::ServerKeepAlive(seconds) => Some(*seconds),
+                        _ => None,
+                    });
+
                 // Receive Maximum applies to this network connection only: without
                 // the property the limit goes back to the configured one.
                 let receive_maximum = ack
-- 
2.43.0


From 3a2cbacd610449a36c54ce786f8f323f1ae7eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:30 +0000
Subject: [PATCH 21/88] fix: packets of an earlier connection are not
 retransmitted on its logical channels

---
 src/mqtt_client/engine.rs   | 2 ++
 src/mqtt_client/inflight.rs | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 7d5b019..bec2159 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -588,6 +588,8 @@ impl MqttEngine {
         self.connect_started_at = Some(Instant::now());
         // A PINGREQ of an earlier connection will never be answered on this one.
         self.ping_sent_at = None;
+        // Nor do the logical channels of an earlier connection exist any more.
+        self.inflight_queue.forget_streams();
 
         let packet = if self.options.mqtt_version == 5 {
             let connect = connectv5::MqttConnect::new(
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 1ce82d1..8b3622b 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -212,6 +212,14 @@ impl InflightQueue {
         all.into_iter().map(|e| e.packet.clone()).collect()
     }
 
+    /// Forget which logical channel each entry was sent on: on a new connection
+    /// they are sent again on its control channel.
+    pub fn forget_streams(&mut self) {
+        for entry in self.entries.values_mut() {
+            entry.stream = None;
+        }
+    }
+
     /// Get the earliest expiration time for any inflight message
     pub fn next_expiration(&self) -> Option<Instant> {
         // MQTT v5.0: MUST NOT retransmit while connection is active
-- 
2.43.0


From 7a1cd38d51e048d596e7b51c658328aa39f29129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:36 +0000
Subject: [PATCH 22/88] fix: the TLS engine does not lose outgoing data beyond
 64 KB

---
 src/mqtt_client/tls_engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index f945343..0127bef 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -38,11 +38,14 @@ impl TlsMqttEngine {
             })?
             .to_owned();
 
-        let tls_connection = ClientConnection::new(config, server_name).map_err(|e| {
+        let mut tls_connection = ClientConnection::new(config, server_name).map_err(|e| {
             MqttClientError::InternalError {
                 message: format!("Failed to create TLS connection: {}", e),
             }
         })?;
+        // The MQTT engine bounds what it queues and has no way to take back what
+        // the TLS buffer would refuse (rustls limits it to 64 KB by default).
+        tls_connection.set_buffer_limit(None);
 
         Ok(Self {
             mqtt_engine,
-- 
2.43.0


From b1c5bdc50408d99c4761df7cdf7c9e846002f64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:36 +0000
Subject: [PATCH 23/88] fix: the TLS engine accepts more than 16 KB of received
 data at once

---
 src/mqtt_client/tls_engine.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index 0127bef..85964ba 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -71,9 +71,16 @@ impl TlsMqttEngine {
                     message: format!("TLS process error: {}", e),
                 }
             })?;
+
+            // Make room: rustls refuses to read on while too much plaintext waits
+            self.read_plaintext()?;
         }
 
-        // After processing packets, check if there is any plaintext available
+        Ok(())
+    }
+
+    /// Move the decrypted data that is available to `incoming_plaintext`.
+    fn read_plaintext(&mut self) -> Result<(), MqttClientError> {
         let mut buf = vec![0u8; 4096];
         loop {
             match self.tls_connection.reader().read(&mut buf) {
-- 
2.43.0


From 37b9c4257d542acb6a4bb2aba4d2dc28179ad674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:36 +0000
Subject: [PATCH 24/88] fix: TlsMqttEngine::take_socket_data takes all pending
 data

---
 src/mqtt_client/tls_engine.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index 85964ba..bbdbf42 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -103,7 +103,12 @@ impl TlsMqttEngine {
     /// Take encrypted data from the TLS engine to be sent to the socket.
     pub fn take_socket_data(&mut self) -> Vec<u8> {
         let mut buf = Vec::new();
-        let _ = self.tls_connection.write_tls(&mut buf);
+        while self.tls_connection.wants_write() {
+            match self.tls_connection.write_tls(&mut buf) {
+                Ok(n) if n > 0 => {}
+                _ => break,
+            }
+        }
         buf
     }
 
-- 
2.43.0


From e9ed02a0d5f2f963c7f8c8cad92651440f10acac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:36 +0000
Subject: [PATCH 25/88] fix: the TLS engine sends what a tick produces in that
 tick and resumes after event back-pressure

---
 src/mqtt_client/tls_engine.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index bbdbf42..6dc6821 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -22,6 +22,9 @@ pub struct TlsMqttEngine {
 
     // Buffer for plaintext data from TLS engine to be fed into MQTT engine
     incoming_plaintext: Vec<u8>,
+
+    // The MQTT engine stopped early because its event buffer was full
+    incoming_paused: bool,
 }
 
 impl TlsMqttEngine {
@@ -51,6 +54,7 @@ impl TlsMqttEngine {
             mqtt_engine,
             tls_connection,
             incoming_plaintext: Vec::new(),
+            incoming_paused: false,
         })
     }
 
@@ -116,22 +120,24 @@ impl TlsMqttEngine {
     pub fn handle_tick(&mut self, now: Instant) -> Vec<MqttEvent> {
         let mut mqtt_events = Vec::new();
 
-        // 1. Process internal plaintext from TLS -> MQTT
-        if !self.incoming_plaintext.is_empty() {
+        // 1. Process internal plaintext from TLS -> MQTT, or resume what the engine left
+        // unprocessed because its event buffer was full.
+        if !self.incoming_plaintext.is_empty() || self.incoming_paused {
             let events = self.mqtt_engine.handle_incoming(&self.incoming_plaintext);
+            self.incoming_paused = events.len() >= self.mqtt_engine.options().max_event_count;
             mqtt_events.extend(events);
             self.incoming_plaintext.clear();
         }
 
-        // 2. Process outgoing plaintext from MQTT -> TLS
+        // 2. Drive MQTT engine tick
+        mqtt_events.extend(self.mqtt_engine.handle_tick(now));
+
+        // 3. Process outgoing plaintext from MQTT -> TLS
         let outgoing = self.mqtt_engine.take_outgoing();
         if !outgoing.is_empty() {
             let _ = self.tls_connection.writer().write_all(&outgoing);
         }
 
-        // 3. Drive MQTT engine tick
-        mqtt_events.extend(self.mqtt_engine.handle_tick(now));
-
         mqtt_events
     }
 
-- 
2.43.0


From 6df2c52a0f20534824ed8acc40076a34b1ece9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:03 +0000
Subject: [PATCH 26/88] fix: a new connection of the tokio client starts
 without the old one's bytes

CONNECT was queued behind whatever the lost connection left in the outgoing
buffer, half a received packet stayed in the parser, and a reconnection timer
of the earlier loss survived an explicit connect() and killed the connection
it had opened.
---
 src/mqtt_client/tokio_async_client.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 1f3ed54..1c34d9a 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -2226,6 +2226,11 @@ impl TokioClientWorker {
                 // Install the transport before enqueuing bytes so the writer branch can flush
                 self.stream = Some(transport);
 
+                // Nothing of an earlier connection may reach this one: neither bytes
+                // still queued, nor half a received packet, nor a pending
+                // reconnection deadline.
+                self.engine.reset_for_new_transport();
+
                 // Initiate MQTT CONNECT packet through engine
                 self.engine.connect();
             }
-- 
2.43.0


From 5fccc2580432ae0020b7f8966eae9a8f8dc2ba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:00 +0000
Subject: [PATCH 27/88] fix: the tokio client drains packets left by the
 engine's event limit

handle_incoming stops at max_event_count events and expects to be called
again; the client did not, so packets beyond the limit waited for the next
bytes from the broker.
---
 src/mqtt_client/tokio_async_client.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 1c34d9a..d796e1b 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1840,6 +1840,25 @@ impl TokioClientWorker {
         }
     }
 
+    /// Feed received bytes to the engine and dispatch the resulting events.
+    ///
+    /// The engine stops at `max_event_count` events and keeps the rest of the
+    /// bytes, so it is called again until a batch is smaller than that. (After
+    /// a parse error it would report the same error for ever.)
+    async fn handle_ingress(&mut self, bytes: &[u8]) {
+        let mut bytes = bytes;
+        loop {
+            let events = self.engine.handle_incoming(bytes);
+            let more = events.len() >= self.engine.options().max_event_count
+                && events.iter().any(|e| !matches!(e, MqttEvent::Error(_)));
+            self.dispatch_events(events).await;
+            if !more || self.stream.is_none() {
+                break;
+            }
+            bytes = &[];
+        }
+    }
+
     /// Take outgoing bytes from engine and write to transport
     async fn write_to_transport(&mut self, data: &[u8]) -> Result<(), MqttClientError> {
         if let Some(stream) = &mut self.stream {
@@ -1912,8 +1931,7 @@ impl TokioClientWorker {
                 } => {
                     match read_result {
                         Ok(Some(bytes)) => {
-                            let events = self.engine.handle_incoming(&bytes);
-                            self.dispatch_events(events).await;
+                            self.handle_ingress(&bytes).await;
                         }
                         Ok(None) => {
                             let mqtt_err = MqttClientError::ConnectionLost {
-- 
2.43.0


From 4ae5afb753e25bb80e76b0f467c3f10c0c8b26e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:39 +0000
Subject: [PATCH 28/88] fix: a second ping_sync of the tokio client no longer
 fails the first

Only one waiting caller was kept: issuing another ping dropped the first one's
channel, which returned BrokenPipe although its PINGRESP arrived.
---
 src/mqtt_client/tokio_async_client.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index d796e1b..e8c14cb 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1,6 +1,6 @@
 // SPDX-License-Identifier: MPL-2.0
 
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::io;
 #[cfg(feature = "quic")]
 use std::net::SocketAddr;
@@ -1719,8 +1719,8 @@ struct TokioClientWorker {
     pending_subscribes_sync: HashMap<u16, tokio::sync::oneshot::Sender<SubscribeResult>>,
     /// Pending synchronous unsubscribe operations keyed by packet identifier
     pending_unsubscribes_sync: HashMap<u16, tokio::sync::oneshot::Sender<UnsubscribeResult>>,
-    /// Pending synchronous ping operations (only one at a time)
-    pending_ping: Option<tokio::sync::oneshot::Sender<PingResult>>,
+    /// Pending synchronous ping operations, oldest first
+    pending_pings: VecDeque<tokio::sync::oneshot::Sender<PingResult>>,
     /// Keep alive timer (dynamic sleep based on next_tick_at)
     tick_timer: Option<Pin<Box<Sleep>>>,
 }
@@ -1743,7 +1743,7 @@ impl TokioClientWorker {
             pending_connect: None,
             pending_subscribes_sync: HashMap::new(),
             pending_unsubscribes_sync: HashMap::new(),
-            pending_ping: None,
+            pending_pings: VecDeque::new(),
             tick_timer: None,
         }
     }
@@ -1796,8 +1796,12 @@ impl TokioClientWorker {
                     // client continues to use the engine's normal auto-ack path.
                 }
                 MqttEvent::PingResponse(res) => {
-                    if let Some(tx) = self.pending_ping.take() {
-                        let _ = tx.send(res.clone());
+                    // PINGRESPs arrive in the order of the PINGREQs; callers that
+                    // timed out are skipped.
+                    while let Some(tx) = self.pending_pings.pop_front() {
+                        if tx.send(res.clone()).is_ok() {
+                            break;
+                        }
                     }
                     self.event_handler.on_ping_response(&res).await;
                 }
@@ -2399,7 +2403,7 @@ impl TokioClientWorker {
 
     /// Handle synchronous ping command
     async fn handle_ping_sync(&mut self, response_tx: tokio::sync::oneshot::Sender<PingResult>) {
-        self.pending_ping = Some(response_tx);
+        self.pending_pings.push_back(response_tx);
         self.engine.send_ping();
     }
 
@@ -2423,7 +2427,7 @@ impl TokioClientWorker {
         }
 
         // Ping always fails
-        if let Some(tx) = self.pending_ping.take() {
+        for tx in self.pending_pings.drain(..) {
             let _ = tx.send(PingResult { success: false });
         }
 
-- 
2.43.0


From c10e71653b9c2b02aafd2c288ffceb4e1a0c157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:59 +0000
Subject: [PATCH 29/88] fix: commands given to an offline tokio client are
 refused, not written nowhere

SUBSCRIBE, UNSUBSCRIBE, PINGREQ, AUTH and raw packets queued without a
transport made the write fail with NotConnected, which was taken for the loss
of a connection: on_connection_lost without one, a further reconnection
scheduled, and the queued bytes dropped. They are refused with NotConnected at
once, and bytes are taken from the engine only when there is a transport.
---
 src/mqtt_client/tokio_async_client.rs | 45 ++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index e8c14cb..4b49b2e 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1876,6 +1876,9 @@ impl TokioClientWorker {
     }
 
     async fn handle_outgoing(&mut self) -> Result<(), MqttClientError> {
+        if self.stream.is_none() {
+            return Ok(());
+        }
         let bytes = self.engine.take_outgoing();
         if !bytes.is_empty() {
             self.write_to_transport(&bytes).await?;
@@ -2033,7 +2036,9 @@ impl TokioClientWorker {
                 self.handle_auth(reason_code, properties).await;
             }
             TokioClientCommand::SendPacket(packet) => {
-                let _ = self.engine.enqueue_packet(packet);
+                if !self.reject_if_offline().await {
+                    let _ = self.engine.enqueue_packet(packet);
+                }
             }
         }
         true
@@ -2272,8 +2277,25 @@ impl TokioClientWorker {
         }
     }
 
+    /// Report NotConnected for an operation that needs a connection.
+    ///
+    /// Publishes are queued by the engine while offline; everything else would
+    /// be written to no transport at all.
+    async fn reject_if_offline(&mut self) -> bool {
+        if self.stream.is_some() {
+            return false;
+        }
+        self.event_handler
+            .on_error(&MqttClientError::NotConnected)
+            .await;
+        true
+    }
+
     /// Handle subscribe command
     async fn handle_subscribe(&mut self, command: SubscribeCommand) {
+        if self.reject_if_offline().await {
+            return;
+        }
         if let Err(e) = self.engine.subscribe(command) {
             self.event_handler.on_error(&e).await;
         }
@@ -2321,6 +2343,9 @@ impl TokioClientWorker {
 
     /// Handle unsubscribe command
     async fn handle_unsubscribe(&mut self, command: UnsubscribeCommand) {
+        if self.reject_if_offline().await {
+            return;
+        }
         if let Err(e) = self.engine.unsubscribe(command) {
             self.event_handler.on_error(&e).await;
         }
@@ -2328,11 +2353,17 @@ impl TokioClientWorker {
 
     /// Handle ping command
     async fn handle_ping(&mut self) {
+        if self.reject_if_offline().await {
+            return;
+        }
         self.engine.send_ping();
     }
 
     /// Handle AUTH command for enhanced authentication (MQTT v5)
     async fn handle_auth(&mut self, reason_code: u8, properties: Vec<Property>) {
+        if self.reject_if_offline().await {
+            return;
+        }
         self.engine.auth(reason_code, properties);
     }
 
@@ -2365,6 +2396,10 @@ impl TokioClientWorker {
         command: SubscribeCommand,
         response_tx: tokio::sync::oneshot::Sender<SubscribeResult>,
     ) {
+        // (dropping the response channel fails the waiting caller)
+        if self.reject_if_offline().await {
+            return;
+        }
         match self.engine.subscribe(command) {
             Ok(pid) => {
                 self.pending_subscribes_sync.insert(pid, response_tx);
@@ -2386,6 +2421,10 @@ impl TokioClientWorker {
         command: UnsubscribeCommand,
         response_tx: tokio::sync::oneshot::Sender<UnsubscribeResult>,
     ) {
+        // (dropping the response channel fails the waiting caller)
+        if self.reject_if_offline().await {
+            return;
+        }
         match self.engine.unsubscribe(command) {
             Ok(pid) => {
                 self.pending_unsubscribes_sync.insert(pid, response_tx);
@@ -2403,6 +2442,10 @@ impl TokioClientWorker {
 
     /// Handle synchronous ping command
     async fn handle_ping_sync(&mut self, response_tx: tokio::sync::oneshot::Sender<PingResult>) {
+        if self.reject_if_offline().await {
+            let _ = response_tx.send(PingResult { success: false });
+            return;
+        }
         self.pending_pings.push_back(response_tx);
         self.engine.send_ping();
     }
-- 
2.43.0


From 1a1c922304894e72b28a299f4cbb9c485c588fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:53 +0000
Subject: [PATCH 30/88] fix: connect_sync waits for the CONNACK of a connection
 being established

With a transport already open but no CONNACK yet it returned a made-up success
at once, and a second caller displaced the first. A refused connection is
closed at once, so that the next connect() is a new attempt.
---
 src/mqtt_client/tokio_async_client.rs | 30 +++++++++++++++------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 4b49b2e..1328ba8 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1712,9 +1712,9 @@ struct TokioClientWorker {
 
     /// Pending synchronous publish operations keyed by packet identifier
     pending_publishes: HashMap<u16, tokio::sync::oneshot::Sender<PublishResult>>,
-    /// Pending synchronous connect operations (only one at a time)
-    pending_connect:
-        Option<tokio::sync::oneshot::Sender<Result<ConnectionResult, MqttClientError>>>,
+    /// Pending synchronous connect operations, all waiting for the same CONNACK
+    pending_connects:
+        Vec<tokio::sync::oneshot::Sender<Result<ConnectionResult, MqttClientError>>>,
     /// Pending synchronous subscribe operations keyed by packet identifier
     pending_subscribes_sync: HashMap<u16, tokio::sync::oneshot::Sender<SubscribeResult>>,
     /// Pending synchronous unsubscribe operations keyed by packet identifier
@@ -1740,7 +1740,7 @@ impl TokioClientWorker {
             config,
             stream: None,
             pending_publishes: HashMap::new(),
-            pending_connect: None,
+            pending_connects: Vec::new(),
             pending_subscribes_sync: HashMap::new(),
             pending_unsubscribes_sync: HashMap::new(),
             pending_pings: VecDeque::new(),
@@ -1753,11 +1753,15 @@ impl TokioClientWorker {
         for event in events {
             match event {
                 MqttEvent::Connected(res) => {
-                    if let Some(tx) = self.pending_connect.take() {
+                    for tx in self.pending_connects.drain(..) {
                         let _ = tx.send(Ok(res.clone()));
                     }
                     self.event_handler.on_connected(&res).await;
-                    self.engine_last_connected = true;
+                    self.engine_last_connected = self.engine.is_connected();
+                    if res.reason_code != 0 {
+                        // Refused: nothing more can happen on this transport
+                        self.handle_connection_lost().await;
+                    }
                 }
                 MqttEvent::Disconnected(reason) => {
                     self.engine_last_connected = false;
@@ -2264,8 +2268,8 @@ impl TokioClientWorker {
             Err(e) => {
                 self.event_handler.on_error(&e).await;
 
-                // If this was a sync connect attempt, notify the waiting caller
-                if let Some(tx) = self.pending_connect.take() {
+                // If this was a sync connect attempt, notify the waiting callers
+                for tx in self.pending_connects.drain(..) {
                     let _ = tx.send(Err(e.clone()));
                 }
 
@@ -2372,8 +2376,8 @@ impl TokioClientWorker {
         &mut self,
         response_tx: tokio::sync::oneshot::Sender<Result<ConnectionResult, MqttClientError>>,
     ) {
-        // Check if already connected or connecting
-        if self.stream.is_some() {
+        // Check if already connected
+        if self.engine.is_connected() {
             let result = ConnectionResult {
                 reason_code: 0,
                 session_present: false,
@@ -2384,9 +2388,9 @@ impl TokioClientWorker {
         }
 
         // Store the response channel for when CONNACK arrives
-        self.pending_connect = Some(response_tx);
+        self.pending_connects.push(response_tx);
 
-        // Initiate connection
+        // Initiate connection (unless one is being established already)
         self.handle_connect().await;
     }
 
@@ -2463,7 +2467,7 @@ impl TokioClientWorker {
 
         // Clean up any pending synchronous operations that cannot be retried automatically
         // Connect always fails on connection loss if not already established
-        if let Some(tx) = self.pending_connect.take() {
+        for tx in self.pending_connects.drain(..) {
             let _ = tx.send(Err(MqttClientError::ConnectionLost {
                 reason: "Connection lost before CONNACK received".to_string(),
             }));
-- 
2.43.0


From e8278d56e7b59f804e91ee4ba999244f0d6ca6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 31/88] fix: disconnect() of the tokio client closes the
 connection for good

The transport stayed open after the DISCONNECT, so acknowledgements followed
it, an immediate connect() did nothing, and when the broker closed it, that
counted as a loss and the client reconnected by itself. The DISCONNECT is now
written, the connection closed, on_disconnected(None) called, and any scheduled
reconnection cancelled.
---
 src/mqtt_client/tokio_async_client.rs | 40 +++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 1328ba8..0ac5fcc 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1713,8 +1713,7 @@ struct TokioClientWorker {
     /// Pending synchronous publish operations keyed by packet identifier
     pending_publishes: HashMap<u16, tokio::sync::oneshot::Sender<PublishResult>>,
     /// Pending synchronous connect operations, all waiting for the same CONNACK
-    pending_connects:
-        Vec<tokio::sync::oneshot::Sender<Result<ConnectionResult, MqttClientError>>>,
+    pending_connects: Vec<tokio::sync::oneshot::Sender<Result<ConnectionResult, MqttClientError>>>,
     /// Pending synchronous subscribe operations keyed by packet identifier
     pending_subscribes_sync: HashMap<u16, tokio::sync::oneshot::Sender<SubscribeResult>>,
     /// Pending synchronous unsubscribe operations keyed by packet identifier
@@ -2455,21 +2454,45 @@ impl TokioClientWorker {
     }
 
     /// Handle disconnect command
+    ///
+    /// The DISCONNECT is the last packet of the connection, which is closed, and
+    /// no reconnection follows.
     async fn handle_disconnect(&mut self) {
         self.engine.disconnect();
+        self.engine.reset_reconnect_state();
+        if self.stream.is_none() {
+            return;
+        }
+        if let Err(e) = self.handle_outgoing().await {
+            self.event_handler.on_error(&e).await;
+        }
+        if let Some(mut stream) = self.stream.take() {
+            // Closing with unread input could abort the connection before the
+            // DISCONNECT arrives, so wait a moment for the broker to close too.
+            tokio::spawn(async move {
+                if stream.shutdown().await.is_ok() {
+                    let mut buffer = vec![0u8; 4096];
+                    let drain =
+                        async { while matches!(stream.read(&mut buffer).await, Ok(n) if n > 0) {} };
+                    let _ = tokio::time::timeout(Duration::from_secs(1), drain).await;
+                }
+            });
+        }
+        self.reset_connection("Disconnected before CONNACK received");
+        self.event_handler.on_disconnected(None).await;
     }
 
-    /// Handle connection lost
-    async fn handle_connection_lost(&mut self) {
+    /// Forget the transport and fail the synchronous operations that cannot be
+    /// retried automatically.
+    fn reset_connection(&mut self, reason: &str) {
         self.stream = None;
         self.engine.handle_connection_lost();
         self.engine_last_connected = false;
 
-        // Clean up any pending synchronous operations that cannot be retried automatically
         // Connect always fails on connection loss if not already established
         for tx in self.pending_connects.drain(..) {
             let _ = tx.send(Err(MqttClientError::ConnectionLost {
-                reason: "Connection lost before CONNACK received".to_string(),
+                reason: reason.to_string(),
             }));
         }
 
@@ -2477,6 +2500,11 @@ impl TokioClientWorker {
         for tx in self.pending_pings.drain(..) {
             let _ = tx.send(PingResult { success: false });
         }
+    }
+
+    /// Handle connection lost
+    async fn handle_connection_lost(&mut self) {
+        self.reset_connection("Connection lost before CONNACK received");
 
         self.event_handler.on_connection_lost().await;
 
-- 
2.43.0


From fc2933ef0ae0cb0b2c7e315fc9473d553dfc7812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:03 +0000
Subject: [PATCH 32/88] fix: a ping time-out of the tokio client schedules one
 reconnection, or none

The engine had already scheduled the attempt; the client scheduled another one,
which doubled the delay and skipped an attempt number. With auto_reconnect off
the engine's attempt was made all the same.
---
 src/mqtt_client/tokio_async_client.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 0ac5fcc..89faf28 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1749,6 +1749,9 @@ impl TokioClientWorker {
 
     /// Dispatch events from the MQTT engine to the application
     async fn dispatch_events(&mut self, events: Vec<MqttEvent>) {
+        // The engine schedules a reconnection when a ping times out, whether
+        // this client wants one or not.
+        let mut reconnect_cancelled = false;
         for event in events {
             match event {
                 MqttEvent::Connected(res) => {
@@ -1827,16 +1830,22 @@ impl TokioClientWorker {
                 }
                 MqttEvent::ReconnectNeeded => {
                     // Engine requesting action.
-                    // If we have a stream, it means we timed out -> handle_connection_lost (to clean up)
+                    // If we have a stream, it means we timed out -> clean up
                     // (engine already scheduled next attempt in that case)
                     // If we have NO stream, it means backoff timer expired -> handle_connect (to try again)
                     if self.stream.is_some() {
-                        self.handle_connection_lost().await;
+                        self.reset_connection("Connection lost before CONNACK received");
+                        if !self.config.auto_reconnect {
+                            self.engine.reset_reconnect_state();
+                            reconnect_cancelled = true;
+                        }
+                        self.event_handler.on_connection_lost().await;
                     } else {
                         // Backoff timer expired, try connecting!
                         self.handle_connect().await;
                     }
                 }
+                MqttEvent::ReconnectScheduled { .. } if reconnect_cancelled => {}
                 MqttEvent::ReconnectScheduled { attempt, delay } => {
                     // Notify user about the scheduled reconnection
                     self.event_handler.on_reconnect_attempt(attempt).await;
-- 
2.43.0


From b586b90ea89d23524ccbbe18a0468d25ed1bf580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:23 +0000
Subject: [PATCH 33/88] fix: awaited requests of a discarded session do not
 take later answers

When the broker kept no session the engine dropped the requests in flight, but
the tokio client kept their callers waiting under packet identifiers that were
reused: the acknowledgement of another message completed them as successes.
---
 src/mqtt_client/engine.rs             |  2 +-
 src/mqtt_client/tokio_async_client.rs | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index bec2159..5e82c58 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1381,7 +1381,7 @@ impl MqttEngine {
 
     /// Whether a packet identifier belongs to a message that is still queued or
     /// unacknowledged and therefore must not be handed out again.
-    fn packet_id_in_use(&self, packet_id: u16) -> bool {
+    pub(crate) fn packet_id_in_use(&self, packet_id: u16) -> bool {
         self.inflight_queue.contains(packet_id)
             || self.priority_queue.iter().any(|packet| match packet {
                 MqttPacket::Publish5(p) => p.packet_id == Some(packet_id),
diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 89faf28..d0317b5 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1752,6 +1752,9 @@ impl TokioClientWorker {
         // The engine schedules a reconnection when a ping times out, whether
         // this client wants one or not.
         let mut reconnect_cancelled = false;
+        let connected = events
+            .iter()
+            .any(|e| matches!(e, MqttEvent::Connected(res) if res.reason_code == 0));
         for event in events {
             match event {
                 MqttEvent::Connected(res) => {
@@ -1854,6 +1857,18 @@ impl TokioClientWorker {
                 }
             }
         }
+
+        if connected {
+            // Requests the engine dropped because the broker kept no session will
+            // never be answered; their packet identifiers are free for others.
+            let engine = &self.engine;
+            self.pending_publishes
+                .retain(|pid, _| engine.packet_id_in_use(*pid));
+            self.pending_subscribes_sync
+                .retain(|pid, _| engine.packet_id_in_use(*pid));
+            self.pending_unsubscribes_sync
+                .retain(|pid, _| engine.packet_id_in_use(*pid));
+        }
     }
 
     /// Feed received bytes to the engine and dispatch the resulting events.
-- 
2.43.0


From 2c210cd21fd1960935913e8c207121fe30bd9e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:03 +0000
Subject: [PATCH 34/88] fix: the QUIC engine resumes control stream packets
 left by the event limit

---
 src/mqtt_client/engine.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 5e82c58..2c99fc7 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1647,6 +1647,9 @@ pub struct QuicMqttEngine {
     // packets. Used for negative testing.
     control_outgoing: Vec<u8>,
 
+    // Packets of the control stream are left in the parser by the event limit.
+    control_incoming_paused: bool,
+
     // Connection parameters retained from the last `connect` so `reconnect` can
     // re-establish on the same endpoint without the caller rebuilding the config.
     client_config: Option<ClientConfig>,
@@ -1700,6 +1703,7 @@ impl QuicMqttEngine {
             default_pub_stream: None,
             default_sub_stream: None,
             control_outgoing: Vec::new(),
+            control_incoming_paused: false,
             client_config: None,
             server_addr: None,
             server_name: None,
@@ -2035,6 +2039,7 @@ impl QuicMqttEngine {
         self.default_pub_stream = None;
         self.default_sub_stream = None;
         self.control_outgoing.clear();
+        self.control_incoming_paused = false;
         self.outgoing_datagrams.clear();
         self.pending_close = None;
         self.control_finishing = false;
@@ -2528,6 +2533,7 @@ impl QuicMqttEngine {
             if let Some(stream_id) = self.control_stream {
                 let mut recv_finished = false;
                 let mut read_reset = None;
+                let mut incoming = Vec::new();
                 {
                     let mut stream = conn.recv_stream(stream_id);
                     // Bind the Result to a local so its temporary (which borrows
@@ -2536,10 +2542,7 @@ impl QuicMqttEngine {
                     if let Ok(mut chunks) = read_result {
                         loop {
                             match chunks.next(16384) {
-                                Ok(Some(chunk)) => {
-                                    mqtt_events
-                                        .extend(self.mqtt_engine.handle_incoming(&chunk.bytes));
-                                }
+                                Ok(Some(chunk)) => incoming.extend_from_slice(&chunk.bytes),
                                 Ok(None) => {
                                     recv_finished = true;
                                     break;
@@ -2553,6 +2556,14 @@ impl QuicMqttEngine {
                         }
                     }
                 }
+                // Also resume what was left unprocessed because the engine's event
+                // buffer was full.
+                if !incoming.is_empty() || self.control_incoming_paused {
+                    let events = self.mqtt_engine.handle_incoming(&incoming);
+                    self.control_incoming_paused =
+                        events.len() >= self.mqtt_engine.options().max_event_count;
+                    mqtt_events.extend(events);
+                }
                 if let Some(error_code) = read_reset {
                     Self::handle_stream_reset_fields(
                         &mut self.control_stream,
-- 
2.43.0


From 8cf2c284335689b1df6d5752a80d88b40f10fe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:03 +0000
Subject: [PATCH 35/88] fix: a stop of a just opened server stream is reported
 by the QUIC engine

---
 src/mqtt_client/engine.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 2c99fc7..7a0e29b 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -2393,6 +2393,13 @@ impl QuicMqttEngine {
                             );
                         }
                         quinn_proto::StreamEvent::Stopped { id, error_code } => {
+                            // The peer may stop a stream it opened in the same
+                            // datagram; make sure the stream is known.
+                            while let Some(stream_id) = conn.streams().accept(Dir::Bi) {
+                                self.data_streams.entry(stream_id).or_insert_with(|| {
+                                    QuicStream::new(parser_buffer_size, mqtt_version, max_packets)
+                                });
+                            }
                             Self::handle_stream_stopped_fields(
                                 &mut self.control_stream,
                                 &mut self.data_streams,
-- 
2.43.0


From 72f941358f902abe1605968be58baa2e2e9b9d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:16 +0000
Subject: [PATCH 36/88] fix: connect() of the QUIC engine starts from a clean
 connection state

---
 src/mqtt_client/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 7a0e29b..14183e4 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1739,8 +1739,8 @@ impl QuicMqttEngine {
         self.server_name = Some(server_name.to_string());
         self.zero_rtt_config = None;
         self.zero_rtt_status = QuicZeroRttStatus::Disabled;
-        self.pending_transport_events.clear();
-        self.early_stream_journal.clear();
+        // Nothing of an earlier connection may leak into the new one.
+        self.reset_connection_state();
 
         self.establish(now)
     }
@@ -1774,8 +1774,8 @@ impl QuicMqttEngine {
         self.server_name = Some(server_name.to_string());
         self.zero_rtt_config = Some(zero_rtt_config);
         self.zero_rtt_status = QuicZeroRttStatus::Unavailable;
-        self.pending_transport_events.clear();
-        self.early_stream_journal.clear();
+        // Nothing of an earlier connection may leak into the new one.
+        self.reset_connection_state();
 
         self.establish(now)
     }
-- 
2.43.0


From e1f8b5756f8a7893b623b179f0e00dbac4d294e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:16 +0000
Subject: [PATCH 37/88] fix: QUIC early data is not resent when its own
 connection resumes the session

---
 src/mqtt_client/engine.rs   |  8 ++++++--
 src/mqtt_client/inflight.rs | 17 ++++++++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 14183e4..795f36e 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -225,6 +225,8 @@ pub struct MqttEngine {
     /// When the CONNECT of the current handshake was queued. Anything sent before
     /// it belongs to an earlier network connection.
     connect_started_at: Option<Instant>,
+    /// Packets from this position on were first sent on the current connection
+    connect_sequence: u64,
 
     // Reconnection state
     reconnect_attempts: u32,
@@ -271,6 +273,7 @@ impl MqttEngine {
             received_qos2: HashSet::new(),
             events: Vec::new(),
             connect_started_at: None,
+            connect_sequence: u64::MAX,
             reconnect_attempts: 0,
             next_reconnect_at: None,
             reconnect_base_delay,
@@ -586,6 +589,7 @@ impl MqttEngine {
             self.session = Some(ClientSession::new());
         }
         self.connect_started_at = Some(Instant::now());
+        self.connect_sequence = self.inflight_queue.next_sequence();
         // A PINGREQ of an earlier connection will never be answered on this one.
         self.ping_sent_at = None;
         // Nor do the logical channels of an earlier connection exist any more.
@@ -1032,7 +1036,7 @@ impl MqttEngine {
                 // Handle session resumption: resend pending messages
                 // Only when server confirms session resumption (session_present=true)
                 if ack.session_present {
-                    let pending = self.inflight_queue.get_all_for_reconnect();
+                    let pending = self.inflight_queue.get_sent_before(self.connect_sequence);
                     for mut packet in pending {
                         packet.set_dup(true);
                         if let Ok(bytes) = packet.to_bytes() {
@@ -1059,7 +1063,7 @@ impl MqttEngine {
                 // Handle session resumption: resend pending messages
                 // Only when server confirms session resumption (session_present=true)
                 if ack.session_present {
-                    let pending = self.inflight_queue.get_all_for_reconnect();
+                    let pending = self.inflight_queue.get_sent_before(self.connect_sequence);
                     for mut packet in pending {
                         packet.set_dup(true);
                         if let Ok(bytes) = packet.to_bytes() {
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 8b3622b..ff86e3d 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -205,7 +205,17 @@ impl InflightQueue {
 
     /// Get all messages to be re-sent upon reconnection (MQTT 3.1.1 and 5.0 with CleanStart=0)
     pub fn get_all_for_reconnect(&self) -> Vec<MqttPacket> {
-        let mut all = self.entries.values().collect::<Vec<_>>();
+        self.get_sent_before(u64::MAX)
+    }
+
+    /// Like [`get_all_for_reconnect`](Self::get_all_for_reconnect), without the packets
+    /// already sent on the new connection (0-RTT early data).
+    pub fn get_sent_before(&self, sequence: u64) -> Vec<MqttPacket> {
+        let mut all = self
+            .entries
+            .values()
+            .filter(|e| e.sequence < sequence)
+            .collect::<Vec<_>>();
         // Original send order; `sent_at` cannot tell apart packets that were
         // retransmitted in the same tick.
         all.sort_by_key(|e| e.sequence);
@@ -220,6 +230,11 @@ impl InflightQueue {
         }
     }
 
+    /// Position the next packet gets in the send order
+    pub fn next_sequence(&self) -> u64 {
+        self.next_sequence
+    }
+
     /// Get the earliest expiration time for any inflight message
     pub fn next_expiration(&self) -> Option<Instant> {
         // MQTT v5.0: MUST NOT retransmit while connection is active
-- 
2.43.0


From 119f83564f041acc278ad39c6005b6a93e9f6f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 38/88] fix: the FFI announces the next tick early by a
 fraction of a millisecond

---
 flowsdk_ffi/src/engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 2073f74..72710c6 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -101,8 +101,9 @@ impl MqttEngineFFI {
                 if tick <= self.start_time {
                     0
                 } else {
+                    // Rounded up: a tick one fraction of a millisecond early does nothing.
                     let duration = tick.duration_since(self.start_time);
-                    duration.as_millis() as i64
+                    duration.as_nanos().div_ceil(1_000_000) as i64
                 }
             }
             None => -1,
-- 
2.43.0


From f598c35a30e560ec58454a3666876dd062b0e733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 39/88] fix: the FFI does not report that the TLS connection
 failed

---
 flowsdk_ffi/src/engine.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 72710c6..8fe5dcf 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -434,7 +434,12 @@ impl TlsMqttEngineFFI {
     }
 
     pub fn handle_socket_data(&self, data: Vec<u8>) {
-        self.engine.lock().unwrap().handle_socket_data(&data).ok();
+        let result = self.engine.lock().unwrap().handle_socket_data(&data);
+        if let Err(e) = result {
+            self.events.lock().unwrap().push(MqttEventFFI::Error {
+                message: e.to_string(),
+            });
+        }
     }
 
     pub fn take_socket_data(&self) -> Vec<u8> {
-- 
2.43.0


From b5177908e454b53d4c41c30704a14ee5340f809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 40/88] fix: the FFI ignores the client certificate for QUIC
 and for unverified servers

---
 flowsdk_ffi/src/engine.rs | 181 +++++++++++++++-----------------------
 1 file changed, 71 insertions(+), 110 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 8fe5dcf..ca1abb6 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -356,74 +356,7 @@ impl TlsMqttEngineFFI {
         let _ = rustls_openssl::default_provider().install_default();
         #[cfg(not(feature = "quic-openssl"))]
         let _ = rustls::crypto::ring::default_provider().install_default();
-        let crypto_builder = rustls::ClientConfig::builder();
-
-        let mut config = if tls_opts.insecure_skip_verify {
-            crypto_builder
-                .dangerous()
-                .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
-                .with_no_client_auth()
-        } else {
-            let mut root_store = rustls::RootCertStore::empty();
-            if let Some(ca_path) = tls_opts.ca_cert_file {
-                if let Ok(file) = std::fs::File::open(ca_path) {
-                    let mut reader = std::io::BufReader::new(file);
-                    let certs = rustls_pemfile::certs(&mut reader)
-                        .filter_map(|r| r.ok())
-                        .collect::<Vec<_>>();
-                    for cert in certs {
-                        root_store.add(cert).ok();
-                    }
-                }
-            } else {
-                for cert in rustls_native_certs::load_native_certs().unwrap_or_default() {
-                    root_store.add(cert).ok();
-                }
-            }
-
-            let mut client_auth = None;
-            if let (Some(cert_path), Some(key_path)) =
-                (tls_opts.client_cert_file, tls_opts.client_key_file)
-            {
-                if let (Ok(cert_file), Ok(key_file)) = (
-                    std::fs::File::open(cert_path),
-                    std::fs::File::open(key_path),
-                ) {
-                    let mut cert_reader = std::io::BufReader::new(cert_file);
-                    let mut key_reader = std::io::BufReader::new(key_file);
-                    let certs = rustls_pemfile::certs(&mut cert_reader)
-                        .filter_map(|r| r.ok())
-                        .collect::<Vec<_>>();
-                    let key = rustls_pemfile::private_key(&mut key_reader).ok().flatten();
-                    if !certs.is_empty() {
-                        if let Some(key) = key {
-                            client_auth = Some((certs, key));
-                        }
-                    }
-                }
-            }
-
-            let builder = crypto_builder.with_root_certificates(root_store);
-            if let Some((certs, key)) = client_auth {
-                builder.with_client_auth_cert(certs, key).unwrap()
-            } else {
-                builder.with_no_client_auth()
-            }
-        };
-
-        if !tls_opts.alpn_protocols.is_empty() {
-            config.alpn_protocols = tls_opts
-                .alpn_protocols
-                .into_iter()
-                .map(|s| s.into_bytes())
-                .collect();
-        } else {
-            config.alpn_protocols = vec![b"mqtt".to_vec()];
-        }
-
-        if tls_opts.enable_key_log {
-            config.key_log = Arc::new(rustls::KeyLogFile::new());
-        }
+        let config = client_tls_config(tls_opts);
 
         let engine = TlsMqttEngine::new(options, &server_name, Arc::new(config)).unwrap();
         TlsMqttEngineFFI {
@@ -559,6 +492,75 @@ impl TlsMqttEngineFFI {
     }
 }
 
+/// The certificate chain and private key of a client, if both can be read.
+#[cfg(any(feature = "tls", feature = "quic"))]
+fn client_identity(
+    cert_file: Option<String>,
+    key_file: Option<String>,
+) -> Option<(
+    Vec<rustls::pki_types::CertificateDer<'static>>,
+    rustls::pki_types::PrivateKeyDer<'static>,
+)> {
+    let cert_file = std::fs::File::open(cert_file?).ok()?;
+    let key_file = std::fs::File::open(key_file?).ok()?;
+    let certs = rustls_pemfile::certs(&mut std::io::BufReader::new(cert_file))
+        .filter_map(|r| r.ok())
+        .collect::<Vec<_>>();
+    let key = rustls_pemfile::private_key(&mut std::io::BufReader::new(key_file)).ok()??;
+    (!certs.is_empty()).then_some((certs, key))
+}
+
+/// TLS configuration shared by the TLS and the QUIC engine.
+#[cfg(any(feature = "tls", feature = "quic"))]
+fn client_tls_config(tls_opts: MqttTlsOptionsFFI) -> rustls::ClientConfig {
+    let crypto_builder = rustls::ClientConfig::builder();
+
+    let builder = if tls_opts.insecure_skip_verify {
+        crypto_builder
+            .dangerous()
+            .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
+    } else {
+        let mut root_store = rustls::RootCertStore::empty();
+        if let Some(ca_path) = tls_opts.ca_cert_file {
+            if let Ok(file) = std::fs::File::open(ca_path) {
+                let mut reader = std::io::BufReader::new(file);
+                let certs = rustls_pemfile::certs(&mut reader)
+                    .filter_map(|r| r.ok())
+                    .collect::<Vec<_>>();
+                for cert in certs {
+                    root_store.add(cert).ok();
+                }
+            }
+        } else {
+            for cert in rustls_native_certs::load_native_certs().unwrap_or_default() {
+                root_store.add(cert).ok();
+            }
+        }
+        crypto_builder.with_root_certificates(root_store)
+    };
+
+    let mut config = match client_identity(tls_opts.client_cert_file, tls_opts.client_key_file) {
+        Some((certs, key)) => builder.with_client_auth_cert(certs, key).unwrap(),
+        None => builder.with_no_client_auth(),
+    };
+
+    if !tls_opts.alpn_protocols.is_empty() {
+        config.alpn_protocols = tls_opts
+            .alpn_protocols
+            .into_iter()
+            .map(|s| s.into_bytes())
+            .collect();
+    } else {
+        config.alpn_protocols = vec![b"mqtt".to_vec()];
+    }
+
+    if tls_opts.enable_key_log {
+        config.key_log = Arc::new(rustls::KeyLogFile::new());
+    }
+
+    config
+}
+
 #[derive(Debug)]
 struct InsecureServerCertVerifier;
 
@@ -644,48 +646,7 @@ impl QuicMqttEngineFFI {
         let _ = rustls_openssl::default_provider().install_default();
         #[cfg(not(feature = "quic-openssl"))]
         let _ = rustls::crypto::ring::default_provider().install_default();
-        let crypto_builder = rustls::ClientConfig::builder();
-
-        let mut config = if tls_opts.insecure_skip_verify {
-            crypto_builder
-                .dangerous()
-                .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
-                .with_no_client_auth()
-        } else {
-            let mut root_store = rustls::RootCertStore::empty();
-            if let Some(ca_path) = tls_opts.ca_cert_file {
-                if let Ok(file) = std::fs::File::open(ca_path) {
-                    let mut reader = std::io::BufReader::new(file);
-                    let certs = rustls_pemfile::certs(&mut reader)
-                        .filter_map(|r| r.ok())
-                        .collect::<Vec<_>>();
-                    for cert in certs {
-                        root_store.add(cert).ok();
-                    }
-                }
-            } else {
-                for cert in rustls_native_certs::load_native_certs().unwrap_or_default() {
-                    root_store.add(cert).ok();
-                }
-            }
-            crypto_builder
-                .with_root_certificates(root_store)
-                .with_no_client_auth()
-        };
-
-        if !tls_opts.alpn_protocols.is_empty() {
-            config.alpn_protocols = tls_opts
-                .alpn_protocols
-                .into_iter()
-                .map(|s| s.into_bytes())
-                .collect();
-        } else {
-            config.alpn_protocols = vec![b"mqtt".to_vec()];
-        }
-
-        if tls_opts.enable_key_log {
-            config.key_log = Arc::new(rustls::KeyLogFile::new());
-        }
+        let config = client_tls_config(tls_opts);
 
         self.engine
             .lock()
-- 
2.43.0


From 26e186e2b2f2d1d3008d9ae0af690946c86d3bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 41/88] fix: the FFI drops username and password for TLS and
 QUIC

---
 flowsdk_ffi/src/engine.rs | 61 ++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 36 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index ca1abb6..71b4ad1 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -25,6 +25,28 @@ use flowsdk::mqtt_client::tls_engine::TlsMqttEngine;
 use std::net::SocketAddr;
 use std::sync::Arc;
 
+/// Engine options for those of a foreign application.
+fn client_options(opts: MqttOptionsFFI) -> MqttClientOptions {
+    let mut builder = MqttClientOptions::builder()
+        .client_id(opts.client_id)
+        .mqtt_version(opts.mqtt_version)
+        .clean_start(opts.clean_start)
+        .keep_alive(opts.keep_alive)
+        .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
+        .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
+        .max_reconnect_attempts(opts.max_reconnect_attempts);
+
+    if let Some(username) = opts.username {
+        builder = builder.username(username);
+    }
+
+    if let Some(password) = opts.password {
+        builder = builder.password(password);
+    }
+
+    builder.build()
+}
+
 #[cfg_attr(feature = "uniffi-bindings", uniffi::export)]
 impl MqttEngineFFI {
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
@@ -45,24 +67,7 @@ impl MqttEngineFFI {
 
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new_with_opts(opts: MqttOptionsFFI) -> Self {
-        let mut builder = MqttClientOptions::builder()
-            .client_id(opts.client_id)
-            .mqtt_version(opts.mqtt_version)
-            .clean_start(opts.clean_start)
-            .keep_alive(opts.keep_alive)
-            .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
-            .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
-            .max_reconnect_attempts(opts.max_reconnect_attempts);
-
-        if let Some(username) = opts.username {
-            builder = builder.username(username);
-        }
-
-        if let Some(password) = opts.password {
-            builder = builder.password(password);
-        }
-
-        let engine = MqttEngine::new(builder.build());
+        let engine = MqttEngine::new(client_options(opts));
         MqttEngineFFI {
             engine: Mutex::new(engine),
             start_time: Instant::now(),
@@ -342,15 +347,7 @@ pub struct TlsMqttEngineFFI {
 impl TlsMqttEngineFFI {
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new(opts: MqttOptionsFFI, tls_opts: MqttTlsOptionsFFI, server_name: String) -> Self {
-        let options = MqttClientOptions::builder()
-            .client_id(opts.client_id)
-            .mqtt_version(opts.mqtt_version)
-            .clean_start(opts.clean_start)
-            .keep_alive(opts.keep_alive)
-            .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
-            .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
-            .max_reconnect_attempts(opts.max_reconnect_attempts)
-            .build();
+        let options = client_options(opts);
 
         #[cfg(feature = "quic-openssl")]
         let _ = rustls_openssl::default_provider().install_default();
@@ -614,15 +611,7 @@ pub struct QuicMqttEngineFFI {
 impl QuicMqttEngineFFI {
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new(opts: MqttOptionsFFI) -> Self {
-        let options = MqttClientOptions::builder()
-            .client_id(opts.client_id)
-            .mqtt_version(opts.mqtt_version)
-            .clean_start(opts.clean_start)
-            .keep_alive(opts.keep_alive)
-            .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
-            .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
-            .max_reconnect_attempts(opts.max_reconnect_attempts)
-            .build();
+        let options = client_options(opts);
 
         let engine = QuicMqttEngine::new(options).unwrap();
         QuicMqttEngineFFI {
-- 
2.43.0


From 32742b096b782e48e79aaa4ce01aaa88362cf108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 42/88] fix: the FFI panics on a bad address and hides that
 QUIC cannot connect

---
 flowsdk_ffi/src/engine.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 71b4ad1..c71b5c9 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -607,6 +607,15 @@ pub struct QuicMqttEngineFFI {
     events: Mutex<Vec<MqttEventFFI>>,
 }
 
+impl QuicMqttEngineFFI {
+    fn push_error(&self, message: String) {
+        self.events
+            .lock()
+            .unwrap()
+            .push(MqttEventFFI::Error { message });
+    }
+}
+
 #[cfg_attr(feature = "uniffi-bindings", uniffi::export)]
 impl QuicMqttEngineFFI {
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
@@ -628,7 +637,13 @@ impl QuicMqttEngineFFI {
         tls_opts: MqttTlsOptionsFFI,
         now_ms: u64,
     ) {
-        let addr: SocketAddr = server_addr.parse().unwrap();
+        let addr: SocketAddr = match server_addr.parse() {
+            Ok(addr) => addr,
+            Err(_) => {
+                self.push_error(format!("Invalid server address: {:?}", server_addr));
+                return;
+            }
+        };
         let now = self.start_time + Duration::from_millis(now_ms);
 
         #[cfg(feature = "quic-openssl")]
@@ -637,11 +652,14 @@ impl QuicMqttEngineFFI {
         let _ = rustls::crypto::ring::default_provider().install_default();
         let config = client_tls_config(tls_opts);
 
-        self.engine
+        let result = self
+            .engine
             .lock()
             .unwrap()
-            .connect(addr, &server_name, config, now)
-            .ok();
+            .connect(addr, &server_name, config, now);
+        if let Err(e) = result {
+            self.push_error(e.to_string());
+        }
     }
 
     fn elapsed_ms(&self) -> u64 {
@@ -649,7 +667,10 @@ impl QuicMqttEngineFFI {
     }
 
     pub fn handle_datagram(&self, data: Vec<u8>, remote_addr: String, now_ms: u64) {
-        let addr: SocketAddr = remote_addr.parse().unwrap();
+        let Ok(addr) = remote_addr.parse::<SocketAddr>() else {
+            self.push_error(format!("Invalid remote address: {:?}", remote_addr));
+            return;
+        };
         let now = self.start_time + Duration::from_millis(now_ms);
         self.engine.lock().unwrap().handle_datagram(data, addr, now);
     }
-- 
2.43.0


From b570fd23a68aec36708f6066691518b31a524773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 43/88] fix: the C function to connect over QUIC ignores the
 ALPN protocol

---
 flowsdk_ffi/src/engine.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index c71b5c9..5da404e 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -1394,12 +1394,17 @@ pub unsafe extern "C" fn mqtt_quic_engine_connect(
                         .into_owned(),
                 )
             };
+            let alpn_protocols = if r.alpn.is_null() {
+                vec!["mqtt".to_string()]
+            } else {
+                vec![CStr::from_ptr(r.alpn).to_string_lossy().into_owned()]
+            };
             MqttTlsOptionsFFI {
                 ca_cert_file,
                 client_cert_file,
                 client_key_file,
                 insecure_skip_verify: r.insecure_skip_verify != 0,
-                alpn_protocols: vec!["mqtt".to_string()],
+                alpn_protocols,
                 enable_key_log: r.enable_key_log != 0,
             }
         };
-- 
2.43.0


From a7368c327f1faf9887934da35d684e1452400552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 44/88] fix: the FFI without verification refuses most kinds of
 server keys

---
 flowsdk_ffi/src/engine.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 5da404e..b72d2fe 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -593,9 +593,16 @@ impl rustls::client::danger::ServerCertVerifier for InsecureServerCertVerifier {
 
     fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
         vec![
-            rustls::SignatureScheme::RSA_PSS_SHA256,
             rustls::SignatureScheme::RSA_PKCS1_SHA256,
             rustls::SignatureScheme::ECDSA_NISTP256_SHA256,
+            rustls::SignatureScheme::RSA_PKCS1_SHA384,
+            rustls::SignatureScheme::ECDSA_NISTP384_SHA384,
+            rustls::SignatureScheme::RSA_PKCS1_SHA512,
+            rustls::SignatureScheme::ECDSA_NISTP521_SHA512,
+            rustls::SignatureScheme::RSA_PSS_SHA256,
+            rustls::SignatureScheme::RSA_PSS_SHA384,
+            rustls::SignatureScheme::RSA_PSS_SHA512,
+            rustls::SignatureScheme::ED25519,
         ]
     }
 }
-- 
2.43.0


From 0f329a220369b6883590d1a4c92d104e58a881c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:40 +0000
Subject: [PATCH 45/88] fix: TLS and QUIC connections panic when both are
 compiled in

---
 src/mqtt_client/transport/quic.rs       | 20 +++++++++++++++-----
 src/mqtt_client/transport/rustls_tls.rs | 18 ++++++++++++++----
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/mqtt_client/transport/quic.rs b/src/mqtt_client/transport/quic.rs
index 22a0818..542a8de 100644
--- a/src/mqtt_client/transport/quic.rs
+++ b/src/mqtt_client/transport/quic.rs
@@ -14,6 +14,7 @@ mod imp {
 
     use quinn::{ClientConfig, Endpoint};
     use rustls::client::danger::{ServerCertVerified, ServerCertVerifier};
+    use rustls::crypto::CryptoProvider;
     use rustls::pki_types::ServerName;
     use rustls::{ClientConfig as RustlsClientConfig, RootCertStore};
     use rustls_native_certs;
@@ -382,10 +383,21 @@ mod imp {
             // early-data (0-RTT) settings from QuicConfig, then convert into
             // a quinn ClientConfig.
 
+            // rustls cannot choose a provider by itself if several are compiled in, as
+            // they are when rustls is used for TLS too.
+            let provider = CryptoProvider::get_default()
+                .cloned()
+                .unwrap_or_else(|| Arc::new(rustls::crypto::ring::default_provider()));
+            let builder = RustlsClientConfig::builder_with_provider(provider)
+                .with_safe_default_protocol_versions()
+                .map_err(|e| {
+                    TransportError::Quic(format!("failed to build rustls client config: {}", e))
+                })?;
+
             // Build rustls config based on insecure_skip_verify flag
             let mut rustls_cfg = if cfg.insecure_skip_verify {
                 // ⚠️ DANGEROUS: Skip certificate verification entirely
-                RustlsClientConfig::builder()
+                builder
                     .dangerous()
                     .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
                     .with_no_client_auth()
@@ -426,7 +438,7 @@ mod imp {
                     })?;
                     let key_der: PrivateKeyDer<'static> = parsed_key.clone_key();
 
-                    RustlsClientConfig::builder()
+                    builder
                         .with_root_certificates(roots)
                         .with_client_auth_cert(cert_chain_der, key_der)
                         .map_err(|e| {
@@ -437,9 +449,7 @@ mod imp {
                         })?
                 } else {
                     // No client auth
-                    RustlsClientConfig::builder()
-                        .with_root_certificates(roots)
-                        .with_no_client_auth()
+                    builder.with_root_certificates(roots).with_no_client_auth()
                 }
             };
 
diff --git a/src/mqtt_client/transport/rustls_tls.rs b/src/mqtt_client/transport/rustls_tls.rs
index 4ff2b2a..2f5b72e 100644
--- a/src/mqtt_client/transport/rustls_tls.rs
+++ b/src/mqtt_client/transport/rustls_tls.rs
@@ -10,6 +10,7 @@ mod imp {
     use tokio::net::TcpStream;
 
     use rustls::client::danger::{ServerCertVerified, ServerCertVerifier};
+    use rustls::crypto::CryptoProvider;
     use rustls::pki_types::ServerName;
     use rustls::{ClientConfig as RustlsClientConfig, RootCertStore};
     use rustls_native_certs;
@@ -69,6 +70,17 @@ mod imp {
                 })?;
             }
 
+            // rustls cannot choose a provider by itself if several are compiled in, as
+            // they are when QUIC is enabled too.
+            let provider = CryptoProvider::get_default()
+                .cloned()
+                .unwrap_or_else(|| Arc::new(rustls::crypto::aws_lc_rs::default_provider()));
+            let builder = RustlsClientConfig::builder_with_provider(provider)
+                .with_safe_default_protocol_versions()
+                .map_err(|e| {
+                    TransportError::Tls(format!("failed to build rustls client config: {}", e))
+                })?;
+
             // Build rustls config with or without client auth
             let mut cfg = if let (Some(chain), Some(key)) = (
                 self.client_cert_chain.clone(),
@@ -84,7 +96,7 @@ mod imp {
                 })?;
                 let key_der: PrivateKeyDer<'static> = parsed_key.clone_key();
 
-                RustlsClientConfig::builder()
+                builder
                     .with_root_certificates(roots)
                     .with_client_auth_cert(chain_der, key_der)
                     .map_err(|e| {
@@ -94,9 +106,7 @@ mod imp {
                         ))
                     })?
             } else {
-                RustlsClientConfig::builder()
-                    .with_root_certificates(roots)
-                    .with_no_client_auth()
+                builder.with_root_certificates(roots).with_no_client_auth()
             };
 
             // Apply ALPN if provided
-- 
2.43.0


From 1f34423e81584f8f08b9d8fbfe8dfc42b4bb1017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:40 +0000
Subject: [PATCH 46/88] fix: QUIC without verification ignores the client
 certificate

---
 src/mqtt_client/transport/quic.rs | 53 +++++++++++++++----------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/mqtt_client/transport/quic.rs b/src/mqtt_client/transport/quic.rs
index 542a8de..44e43f1 100644
--- a/src/mqtt_client/transport/quic.rs
+++ b/src/mqtt_client/transport/quic.rs
@@ -395,12 +395,11 @@ mod imp {
                 })?;
 
             // Build rustls config based on insecure_skip_verify flag
-            let mut rustls_cfg = if cfg.insecure_skip_verify {
+            let builder = if cfg.insecure_skip_verify {
                 // ⚠️ DANGEROUS: Skip certificate verification entirely
                 builder
                     .dangerous()
                     .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
-                    .with_no_client_auth()
             } else {
                 // Normal certificate verification with root certificates
                 // Prepare root certificates: prefer custom roots if provided, else load platform roots
@@ -422,35 +421,35 @@ mod imp {
                         })?;
                     }
                 }
+                builder.with_root_certificates(roots)
+            };
+
+            // Build rustls config; configure client auth if client cert/key provided
+            let mut rustls_cfg = if let (Some(chain), Some(key)) = (
+                cfg.client_cert_chain.clone(),
+                cfg.client_private_key.clone(),
+            ) {
+                let cert_chain_der: Vec<CertificateDer<'static>> =
+                    chain.into_iter().map(CertificateDer::from).collect();
+                let parsed_key = PrivateKeyDer::try_from(key).map_err(|e| {
+                    TransportError::Quic(format!(
+                        "failed to parse client private key DER for mTLS: {:?}",
+                        e
+                    ))
+                })?;
+                let key_der: PrivateKeyDer<'static> = parsed_key.clone_key();
 
-                // Build rustls config; configure client auth if client cert/key provided
-                if let (Some(chain), Some(key)) = (
-                    cfg.client_cert_chain.clone(),
-                    cfg.client_private_key.clone(),
-                ) {
-                    let cert_chain_der: Vec<CertificateDer<'static>> =
-                        chain.into_iter().map(CertificateDer::from).collect();
-                    let parsed_key = PrivateKeyDer::try_from(key).map_err(|e| {
+                builder
+                    .with_client_auth_cert(cert_chain_der, key_der)
+                    .map_err(|e| {
                         TransportError::Quic(format!(
-                            "failed to parse client private key DER for mTLS: {:?}",
+                            "failed to build client TLS config with client cert: {}",
                             e
                         ))
-                    })?;
-                    let key_der: PrivateKeyDer<'static> = parsed_key.clone_key();
-
-                    builder
-                        .with_root_certificates(roots)
-                        .with_client_auth_cert(cert_chain_der, key_der)
-                        .map_err(|e| {
-                            TransportError::Quic(format!(
-                                "failed to build client TLS config with client cert: {}",
-                                e
-                            ))
-                        })?
-                } else {
-                    // No client auth
-                    builder.with_root_certificates(roots).with_no_client_auth()
-                }
+                    })?
+            } else {
+                // No client auth
+                builder.with_no_client_auth()
             };
 
             // Apply ALPN protocols if provided
-- 
2.43.0


From 60ffa6d1030a959138720b72d10109893d1d0a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:41 +0000
Subject: [PATCH 47/88] fix: TLS and QUIC cannot connect to an IPv6 address

---
 src/mqtt_client/transport/mod.rs  |  8 +++++++-
 src/mqtt_client/transport/quic.rs | 10 ++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mqtt_client/transport/mod.rs b/src/mqtt_client/transport/mod.rs
index 8b7159c..7e379fa 100644
--- a/src/mqtt_client/transport/mod.rs
+++ b/src/mqtt_client/transport/mod.rs
@@ -50,13 +50,19 @@ pub enum TransportError {
 /// Supports formats:
 /// - "mqtts://host:port" → ("host", "host:port")
 /// - "host:port" → ("host", "host:port")
+/// - "[::1]:port" → ("::1", "[::1]:port")
 pub fn parse_mqtt_address(addr: &str) -> Result<(String, String), TransportError> {
     // Remove mqtts:// prefix if present
     let addr = addr.trim_start_matches("mqtts://");
 
     // Split host and port
     if let Some((host, port)) = addr.rsplit_once(':') {
-        Ok((host.to_string(), format!("{}:{}", host, port)))
+        // The brackets of an IPv6 address are not part of the name
+        let name = host
+            .strip_prefix('[')
+            .and_then(|h| h.strip_suffix(']'))
+            .unwrap_or(host);
+        Ok((name.to_string(), format!("{}:{}", host, port)))
     } else {
         Err(TransportError::InvalidAddress(format!(
             "Invalid address format: '{}'. Expected 'host:port' or 'mqtts://host:port'",
diff --git a/src/mqtt_client/transport/quic.rs b/src/mqtt_client/transport/quic.rs
index 44e43f1..7a6a99b 100644
--- a/src/mqtt_client/transport/quic.rs
+++ b/src/mqtt_client/transport/quic.rs
@@ -4,7 +4,7 @@
 
 #[cfg(feature = "quic")]
 mod imp {
-    use super::super::{Transport, TransportError};
+    use super::super::{parse_mqtt_address, Transport, TransportError};
     use async_trait::async_trait;
     use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
     use std::pin::Pin;
@@ -362,13 +362,7 @@ mod imp {
             cfg: QuicConfig,
         ) -> Result<Self, TransportError> {
             // Derive server name (SNI) from addr by splitting host:port
-            let server_name = addr
-                .split(':')
-                .next()
-                .ok_or_else(|| {
-                    TransportError::InvalidAddress(format!("Invalid QUIC address: {}", addr))
-                })?
-                .to_string();
+            let (server_name, _) = parse_mqtt_address(addr)?;
 
             // Resolve address
             let mut addrs = lookup_host(addr).await.map_err(|e| {
-- 
2.43.0


From 6ed674334a585648015f5219b9f38b9811d9c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:39 +0000
Subject: [PATCH 48/88] fix: rustls skips all certificate checks when only the
 host name is to be ignored

---
 src/mqtt_client/transport/rustls_tls.rs | 71 ++++++++++++++++++++-----
 1 file changed, 58 insertions(+), 13 deletions(-)

diff --git a/src/mqtt_client/transport/rustls_tls.rs b/src/mqtt_client/transport/rustls_tls.rs
index 2f5b72e..6f64c76 100644
--- a/src/mqtt_client/transport/rustls_tls.rs
+++ b/src/mqtt_client/transport/rustls_tls.rs
@@ -10,9 +10,10 @@ mod imp {
     use tokio::net::TcpStream;
 
     use rustls::client::danger::{ServerCertVerified, ServerCertVerifier};
+    use rustls::client::WebPkiServerVerifier;
     use rustls::crypto::CryptoProvider;
     use rustls::pki_types::ServerName;
-    use rustls::{ClientConfig as RustlsClientConfig, RootCertStore};
+    use rustls::{CertificateError, ClientConfig as RustlsClientConfig, RootCertStore};
     use rustls_native_certs;
     use rustls_pki_types::pem::PemObject;
     use rustls_pki_types::{CertificateDer, PrivateKeyDer, UnixTime};
@@ -75,7 +76,7 @@ mod imp {
             let provider = CryptoProvider::get_default()
                 .cloned()
                 .unwrap_or_else(|| Arc::new(rustls::crypto::aws_lc_rs::default_provider()));
-            let builder = RustlsClientConfig::builder_with_provider(provider)
+            let builder = RustlsClientConfig::builder_with_provider(provider.clone())
                 .with_safe_default_protocol_versions()
                 .map_err(|e| {
                     TransportError::Tls(format!("failed to build rustls client config: {}", e))
@@ -97,7 +98,7 @@ mod imp {
                 let key_der: PrivateKeyDer<'static> = parsed_key.clone_key();
 
                 builder
-                    .with_root_certificates(roots)
+                    .with_root_certificates(roots.clone())
                     .with_client_auth_cert(chain_der, key_der)
                     .map_err(|e| {
                         TransportError::Tls(format!(
@@ -106,7 +107,9 @@ mod imp {
                         ))
                     })?
             } else {
-                builder.with_root_certificates(roots).with_no_client_auth()
+                builder
+                    .with_root_certificates(roots.clone())
+                    .with_no_client_auth()
             };
 
             // Apply ALPN if provided
@@ -116,9 +119,24 @@ mod imp {
 
             // Apply dangerous overrides if requested
             if self.danger_accept_invalid_certs || self.danger_accept_invalid_hostnames {
+                let chain = if self.danger_accept_invalid_certs {
+                    None
+                } else {
+                    let verifier =
+                        WebPkiServerVerifier::builder_with_provider(Arc::new(roots), provider)
+                            .build()
+                            .map_err(|e| {
+                                TransportError::Tls(format!(
+                                    "failed to build certificate verifier: {}",
+                                    e
+                                ))
+                            })?;
+                    Some(verifier)
+                };
                 cfg.dangerous()
                     .set_certificate_verifier(Arc::new(InsecureServerCertVerifier {
                         skip_name_check: self.danger_accept_invalid_hostnames,
+                        chain,
                     }));
             }
 
@@ -290,17 +308,35 @@ mod imp {
     #[derive(Debug)]
     struct InsecureServerCertVerifier {
         skip_name_check: bool,
+        /// Validates the certificate chain and the signatures unless that is skipped
+        chain: Option<Arc<WebPkiServerVerifier>>,
     }
 
     impl ServerCertVerifier for InsecureServerCertVerifier {
         fn verify_server_cert(
             &self,
             end_entity: &CertificateDer<'_>,
-            _intermediates: &[CertificateDer<'_>],
+            intermediates: &[CertificateDer<'_>],
             server_name: &ServerName<'_>,
-            _ocsp_response: &[u8],
-            _now: UnixTime,
+            ocsp_response: &[u8],
+            now: UnixTime,
         ) -> Result<ServerCertVerified, rustls::Error> {
+            if let Some(chain) = &self.chain {
+                // The name is checked last, so the chain is valid if only the name is not
+                return match chain.verify_server_cert(
+                    end_entity,
+                    intermediates,
+                    server_name,
+                    ocsp_response,
+                    now,
+                ) {
+                    Err(rustls::Error::InvalidCertificate(
+                        CertificateError::NotValidForName
+                        | CertificateError::NotValidForNameContext { .. },
+                    )) if self.skip_name_check => Ok(ServerCertVerified::assertion()),
+                    result => result,
+                };
+            }
             // If skip_name_check is false, we should verify the hostname
             if !self.skip_name_check {
                 // Perform hostname verification using rustls's built-in verification
@@ -313,23 +349,32 @@ mod imp {
 
         fn verify_tls12_signature(
             &self,
-            _message: &[u8],
-            _cert: &CertificateDer<'_>,
-            _dss: &rustls::DigitallySignedStruct,
+            message: &[u8],
+            cert: &CertificateDer<'_>,
+            dss: &rustls::DigitallySignedStruct,
         ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
+            if let Some(chain) = &self.chain {
+                return chain.verify_tls12_signature(message, cert, dss);
+            }
             Ok(rustls::client::danger::HandshakeSignatureValid::assertion())
         }
 
         fn verify_tls13_signature(
             &self,
-            _message: &[u8],
-            _cert: &CertificateDer<'_>,
-            _dss: &rustls::DigitallySignedStruct,
+            message: &[u8],
+            cert: &CertificateDer<'_>,
+            dss: &rustls::DigitallySignedStruct,
         ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
+            if let Some(chain) = &self.chain {
+                return chain.verify_tls13_signature(message, cert, dss);
+            }
             Ok(rustls::client::danger::HandshakeSignatureValid::assertion())
         }
 
         fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
+            if let Some(chain) = &self.chain {
+                return chain.supported_verify_schemes();
+            }
             vec![
                 rustls::SignatureScheme::RSA_PKCS1_SHA256,
                 rustls::SignatureScheme::ECDSA_NISTP256_SHA256,
-- 
2.43.0


From 8edb3e974416cf8a51f0e07a57d0b3d0159af160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:39 +0000
Subject: [PATCH 49/88] fix: rustls trusts no certificate by default instead of
 those of the system

---
 src/mqtt_client/transport/rustls_tls.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/transport/rustls_tls.rs b/src/mqtt_client/transport/rustls_tls.rs
index 6f64c76..e5b2526 100644
--- a/src/mqtt_client/transport/rustls_tls.rs
+++ b/src/mqtt_client/transport/rustls_tls.rs
@@ -22,7 +22,7 @@ mod imp {
     use tokio_rustls::{client::TlsStream as RustlsTlsStream, TlsConnector as RustlsTlsConnector};
 
     /// TLS configuration for Rustls backend
-    #[derive(Clone, Default, Debug)]
+    #[derive(Clone, Debug)]
     pub struct RustlsTlsConfig {
         /// Use system root certificates (platform trust store). Enabled by default.
         pub use_system_roots: bool,
@@ -42,6 +42,12 @@ mod imp {
         pub enable_key_log: bool,
     }
 
+    impl Default for RustlsTlsConfig {
+        fn default() -> Self {
+            Self::builder().build()
+        }
+    }
+
     impl RustlsTlsConfig {
         /// Create a new builder for `RustlsTlsConfig`.
         pub fn builder() -> RustlsTlsConfigBuilder {
@@ -150,7 +156,6 @@ mod imp {
     }
 
     /// Builder for `RustlsTlsConfig` with ergonomic helpers
-    #[derive(Default)]
     pub struct RustlsTlsConfigBuilder {
         use_system_roots: bool,
         custom_root_certs: Vec<Vec<u8>>,
@@ -162,6 +167,21 @@ mod imp {
         enable_key_log: bool,
     }
 
+    impl Default for RustlsTlsConfigBuilder {
+        fn default() -> Self {
+            Self {
+                use_system_roots: true,
+                custom_root_certs: Vec::new(),
+                client_cert_chain: None,
+                client_private_key: None,
+                danger_accept_invalid_certs: false,
+                danger_accept_invalid_hostnames: false,
+                alpn_protocols: Vec::new(),
+                enable_key_log: false,
+            }
+        }
+    }
+
     impl RustlsTlsConfigBuilder {
         /// Enable/disable loading platform root certificates (default: true)
         pub fn use_system_roots(mut self, enable: bool) -> Self {
-- 
2.43.0


From f1441f5afc9a1c2fe809d7bdc5d7ef12cafad5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:39 +0000
Subject: [PATCH 50/88] fix: closing a TCP or TLS transport does not end the
 stream

---
 src/mqtt_client/transport/rustls_tls.rs | 5 +++--
 src/mqtt_client/transport/tcp.rs        | 5 ++---
 src/mqtt_client/transport/tls.rs        | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mqtt_client/transport/rustls_tls.rs b/src/mqtt_client/transport/rustls_tls.rs
index e5b2526..099f2b2 100644
--- a/src/mqtt_client/transport/rustls_tls.rs
+++ b/src/mqtt_client/transport/rustls_tls.rs
@@ -7,6 +7,7 @@ mod imp {
     use super::super::{Transport, TransportError};
     use async_trait::async_trait;
     use std::sync::Arc;
+    use tokio::io::AsyncWriteExt;
     use tokio::net::TcpStream;
 
     use rustls::client::danger::{ServerCertVerified, ServerCertVerifier};
@@ -487,8 +488,8 @@ mod imp {
         }
 
         async fn close(&mut self) -> Result<(), TransportError> {
-            // Rustls/TCP closes on drop; no explicit shutdown available here
-            Ok(())
+            // Without this the peer cannot tell the end from a truncation
+            self.stream.shutdown().await.map_err(TransportError::Io)
         }
 
         fn peer_addr(&self) -> Result<String, TransportError> {
diff --git a/src/mqtt_client/transport/tcp.rs b/src/mqtt_client/transport/tcp.rs
index 948d222..2cc7e45 100644
--- a/src/mqtt_client/transport/tcp.rs
+++ b/src/mqtt_client/transport/tcp.rs
@@ -6,7 +6,7 @@ use super::{Transport, TransportError};
 use async_trait::async_trait;
 use std::pin::Pin;
 use std::task::{Context, Poll};
-use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
+use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt, ReadBuf};
 use tokio::net::TcpStream;
 
 /// TCP transport implementation
@@ -48,8 +48,7 @@ impl Transport for TcpTransport {
     }
 
     async fn close(&mut self) -> Result<(), TransportError> {
-        // Graceful shutdown - the stream will be dropped automatically
-        Ok(())
+        self.stream.shutdown().await.map_err(TransportError::Io)
     }
 
     fn peer_addr(&self) -> Result<String, TransportError> {
diff --git a/src/mqtt_client/transport/tls.rs b/src/mqtt_client/transport/tls.rs
index 62be5f2..57054fd 100644
--- a/src/mqtt_client/transport/tls.rs
+++ b/src/mqtt_client/transport/tls.rs
@@ -11,7 +11,7 @@ use async_trait::async_trait;
 use native_tls::{Certificate, Identity, TlsConnector as NativeTlsConnector};
 use std::pin::Pin;
 use std::task::{Context, Poll};
-use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
+use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt, ReadBuf};
 use tokio::net::TcpStream;
 use tokio_native_tls::{TlsConnector, TlsStream};
 
@@ -108,8 +108,8 @@ impl Transport for TlsTransport {
     }
 
     async fn close(&mut self) -> Result<(), TransportError> {
-        // TLS graceful shutdown happens automatically on drop
-        Ok(())
+        // Without this the peer cannot tell the end from a truncation
+        self.stream.shutdown().await.map_err(TransportError::Io)
     }
 
     fn peer_addr(&self) -> Result<String, TransportError> {
-- 
2.43.0


From fc08857a6faeca73e8f3623b99a00a09d9400cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:39 +0000
Subject: [PATCH 51/88] fix: closing a QUIC transport discards data that was
 written

---
 src/mqtt_client/transport/quic.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/transport/quic.rs b/src/mqtt_client/transport/quic.rs
index 7a6a99b..58451c8 100644
--- a/src/mqtt_client/transport/quic.rs
+++ b/src/mqtt_client/transport/quic.rs
@@ -9,6 +9,7 @@ mod imp {
     use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
     use std::pin::Pin;
     use std::task::{Context, Poll};
+    use std::time::Duration;
     use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
     use tokio::net::lookup_host;
 
@@ -338,6 +339,9 @@ mod imp {
         }
     }
 
+    /// How long closing waits for the peer to receive everything
+    const CLOSE_TIMEOUT: Duration = Duration::from_secs(5);
+
     /// Minimal QUIC transport backed by quinn
     pub struct QuicTransport {
         // Keep the endpoint alive for the lifetime of the transport
@@ -546,10 +550,10 @@ mod imp {
         }
 
         async fn close(&mut self) -> Result<(), TransportError> {
-            // Finish the send stream
-            self.send.finish().map_err(|e| {
-                TransportError::ConnectionFailed(format!("QUIC send finish failed: {}", e))
-            })?;
+            // Finish the send stream, unless that happened already
+            let _ = self.send.finish();
+            // Closing the connection discards what the peer has not received yet
+            let _ = tokio::time::timeout(CLOSE_TIMEOUT, self.send.stopped()).await;
             self.connection.close(0u32.into(), b"client close");
             Ok(())
         }
-- 
2.43.0


From a70c42590fcac950eb5a13e91e7740389a6deb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:59 +0000
Subject: [PATCH 52/88] fix: a sessionless blocking client can do nothing but
 connect

---
 src/mqtt_client/client.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index 79e99d4..6407cd2 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -340,7 +340,9 @@ impl MqttClient {
 
             // Initialize ClientSession
             if self.options.sessionless {
-                self.context.session = None;
+                // Nothing is kept between connections; packet identifiers are
+                // still needed on this one
+                self.context.session = Some(ClientSession::new());
                 self.options.clean_start = true;
             } else if self.context.session.is_none() {
                 self.context.session = Some(ClientSession::new());
@@ -804,7 +806,9 @@ impl MqttClient {
         if let Ok(stream) = TcpStream::connect(self.context.peer.clone()) {
             // Initialize ClientSession
             if self.options.sessionless {
-                self.context.session = None;
+                // Nothing is kept between connections; packet identifiers are
+                // still needed on this one
+                self.context.session = Some(ClientSession::new());
                 self.options.clean_start = true;
             } else if self.context.session.is_none() {
                 self.context.session = Some(ClientSession::new());
-- 
2.43.0


From d83f98a32e434bcc56555c15d5c74bb61f47eff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:59 +0000
Subject: [PATCH 53/88] fix: the blocking client keeps the connection after its
 DISCONNECT

---
 src/mqtt_client/client.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index 6407cd2..f40f848 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -27,7 +27,7 @@ use crate::mqtt_serde::MqttStream;
 use super::MqttClientOptions;
 use std::collections::HashMap;
 use std::io;
-use std::net::TcpStream;
+use std::net::{Shutdown, TcpStream};
 
 pub struct Subscription {
     pub topic: String,
@@ -756,9 +756,17 @@ impl MqttClient {
             let disconnect_packet = disconnectv5::MqttDisconnect::new(reason_code, vec![]);
             self.send_packet(disconnect_packet)?;
         }
+        self.close_stream();
         Ok(())
     }
 
+    /// Closes the network connection, as is required after a DISCONNECT
+    fn close_stream(&mut self) {
+        if let Some(mut stream) = self.context.mqtt_stream.take() {
+            let _ = stream.mut_stream().shutdown(Shutdown::Write);
+        }
+    }
+
     pub fn pingd(&mut self) -> io::Result<PingResult> {
         if self.is_v3() {
             // MQTT v3.1.1
@@ -947,7 +955,9 @@ impl MqttClient {
     /// Send DISCONNECT packet without waiting (DISCONNECT has no response)
     pub fn disconnect_send(&mut self) -> io::Result<()> {
         let disconnect_packet = disconnectv5::MqttDisconnect::new(0, vec![]); // reason code 0, no properties
-        self.send_packet(disconnect_packet)
+        self.send_packet(disconnect_packet)?;
+        self.close_stream();
+        Ok(())
     }
 
     // Session state management methods
-- 
2.43.0


From 4f921547053e15f4c5282dd1c098e9ff740e904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:59 +0000
Subject: [PATCH 54/88] fix: the blocking client releases a QoS 2 message that
 was refused, and waits for ever

---
 src/mqtt_client/client.rs | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index f40f848..2a8cf9b 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -657,9 +657,17 @@ impl MqttClient {
 
         if self.is_v3() {
             // MQTT v3.1.1
-            self.recv_for_packet(|p| {
-                matches!(p, MqttPacket::PubRec3(pubrec) if pubrec.message_id == expected_packet_id)
-            })?;
+            if self
+                .recv_for_packet(|p| {
+                    matches!(p, MqttPacket::PubRec3(pubrec) if pubrec.message_id == expected_packet_id)
+                })?
+                .is_none()
+            {
+                return Err(io::Error::new(
+                    io::ErrorKind::UnexpectedEof,
+                    "No PUBREC received from broker",
+                ));
+            }
 
             self.send_packet(pubrelv3::MqttPubRel::new(expected_packet_id))?;
             match self.recv_for_packet(|p| {
@@ -680,9 +688,26 @@ impl MqttClient {
             }
         } else {
             // MQTT v5
-            self.recv_for_packet(|p| {
+            match self.recv_for_packet(|p| {
                 matches!(p, MqttPacket::PubRec5(pubrec) if pubrec.packet_id == expected_packet_id)
-            })?;
+            })? {
+                // The broker refused the message: there is nothing to release
+                Some(MqttPacket::PubRec5(pubrec)) if pubrec.reason_code >= 0x80 => {
+                    return Ok(PublishResult {
+                        packet_id: Some(pubrec.packet_id),
+                        reason_code: Some(pubrec.reason_code),
+                        properties: Some(pubrec.properties),
+                        qos: 2,
+                    });
+                }
+                Some(_) => {}
+                None => {
+                    return Err(io::Error::new(
+                        io::ErrorKind::UnexpectedEof,
+                        "No PUBREC received from broker",
+                    ));
+                }
+            }
 
             self.send_packet(pubrelv5::MqttPubRel::new(expected_packet_id, 0, vec![]))?;
             match self.recv_for_packet(|p| {
-- 
2.43.0


From 2ced7b6d554cf19e1c23ecf405585abd9a19aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:59 +0000
Subject: [PATCH 55/88] fix: the fire-and-forget calls of the blocking client
 speak MQTT 5 on an MQTT 3.1.1 connection, and connect_send hides that nobody
 answers

---
 src/mqtt_client/client.rs | 155 +++++++++++++++++++++++---------------
 1 file changed, 96 insertions(+), 59 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index 2a8cf9b..3506271 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -836,58 +836,81 @@ impl MqttClient {
     /// Send CONNECT packet without waiting for CONNACK
     pub fn connect_send(&mut self) -> io::Result<()> {
         // Establish connection to the MQTT broker
-        if let Ok(stream) = TcpStream::connect(self.context.peer.clone()) {
-            // Initialize ClientSession
-            if self.options.sessionless {
-                // Nothing is kept between connections; packet identifiers are
-                // still needed on this one
-                self.context.session = Some(ClientSession::new());
-                self.options.clean_start = true;
-            } else if self.context.session.is_none() {
-                self.context.session = Some(ClientSession::new());
-            }
+        let stream = TcpStream::connect(self.context.peer.clone())?;
+        // Initialize ClientSession
+        if self.options.sessionless {
+            // Nothing is kept between connections; packet identifiers are
+            // still needed on this one
+            self.context.session = Some(ClientSession::new());
+            self.options.clean_start = true;
+        } else if self.context.session.is_none() {
+            self.context.session = Some(ClientSession::new());
+        }
 
-            // Send CONNECT packet
-            let connect_packet = connectv5::MqttConnect::new(
+        // Send CONNECT packet without waiting for CONNACK
+        if self.is_v3() {
+            // MQTT v3.1.1
+            let mut connect_packet = connectv3::MqttConnect::new(
                 self.options.client_id.clone(),
-                self.options.username.clone(),
-                self.options.password.clone(),
-                self.options.will.clone(),
                 self.options.keep_alive,
-                self.options.clean_start,
-                vec![], // Add properties as needed
+                self.options.clean_start, // v3 uses clean_session
             );
+            connect_packet.username = self.options.username.clone();
+            connect_packet.password = self.options.password.clone();
+            connect_packet.will = self.options.will.as_ref().map(Self::convert_will_v5_to_v3);
 
-            // Stream used, now save it
-            let mqtt_stream = MqttStream::new(stream, 16384, 5);
+            let mqtt_stream = MqttStream::new(stream, 16384, self.options.mqtt_version);
             self.context.mqtt_stream = Some(mqtt_stream);
-
-            // Send CONNECT packet without waiting for CONNACK
-            self.send_packet(connect_packet)?;
+            return self.send_packet(connect_packet);
         }
+
+        let connect_packet = connectv5::MqttConnect::new(
+            self.options.client_id.clone(),
+            self.options.username.clone(),
+            self.options.password.clone(),
+            self.options.will.clone(),
+            self.options.keep_alive,
+            self.options.clean_start,
+            vec![], // Add properties as needed
+        );
+
+        // Stream used, now save it
+        let mqtt_stream = MqttStream::new(stream, 16384, 5);
+        self.context.mqtt_stream = Some(mqtt_stream);
+
+        // Send CONNECT packet without waiting for CONNACK
+        self.send_packet(connect_packet)?;
         Ok(())
     }
 
     /// Send SUBSCRIBE packet without waiting for SUBACK
     pub fn subscribe_send(&mut self, topic: &str, qos: u8) -> io::Result<u16> {
         if let Some(session) = &mut self.context.session {
-            let subscription = subscribev5::TopicSubscription {
-                topic_filter: topic.to_string(),
-                qos,
-                no_local: false,
-                retain_as_published: false,
-                retain_handling: 0,
-            };
-
             let packet_id = session.next_packet_id();
-            let subscribe_packet = subscribev5::MqttSubscribe::new(
-                packet_id,
-                vec![subscription],
-                vec![], // Add properties as needed
-            );
 
             // Send SUBSCRIBE packet without waiting for SUBACK
-            self.send_packet(subscribe_packet)?;
+            if self.is_v3() {
+                self.send_packet(subscribev3::MqttSubscribe::new(
+                    packet_id,
+                    vec![subscribev3::SubscriptionTopic {
+                        topic_filter: topic.to_string(),
+                        qos,
+                    }],
+                ))?;
+            } else {
+                let subscription = subscribev5::TopicSubscription {
+                    topic_filter: topic.to_string(),
+                    qos,
+                    no_local: false,
+                    retain_as_published: false,
+                    retain_handling: 0,
+                };
+                self.send_packet(subscribev5::MqttSubscribe::new(
+                    packet_id,
+                    vec![subscription],
+                    vec![], // Add properties as needed
+                ))?;
+            }
 
             // Update session state - track pending subscription
             self.context
@@ -906,14 +929,19 @@ impl MqttClient {
             let topic_filters: Vec<String> = topics.iter().map(|&s| s.to_string()).collect();
             let packet_id = session.next_packet_id();
 
-            let unsubscribe_packet = unsubscribev5::MqttUnsubscribe::new(
-                packet_id,
-                topic_filters.clone(),
-                vec![], // Add properties as needed
-            );
-
             // Send UNSUBSCRIBE packet without waiting for UNSUBACK
-            self.send_packet(unsubscribe_packet)?;
+            if self.is_v3() {
+                self.send_packet(unsubscribev3::MqttUnsubscribe::new(
+                    packet_id,
+                    topic_filters.clone(),
+                ))?;
+            } else {
+                self.send_packet(unsubscribev5::MqttUnsubscribe::new(
+                    packet_id,
+                    topic_filters.clone(),
+                    vec![], // Add properties as needed
+                ))?;
+            }
 
             // Update session state - track pending unsubscription
             self.context
@@ -946,17 +974,26 @@ impl MqttClient {
                 None
             };
 
-            let publish_packet = publishv5::MqttPublish::new(
-                qos,
-                topic.to_string(),
-                packet_id,
-                payload.to_vec(),
-                retain,
-                false,
-            );
-
             // Send PUBLISH packet without waiting for acknowledgment
-            self.send_packet(publish_packet)?;
+            if self.is_v3() {
+                self.send_packet(publishv3::MqttPublish::new(
+                    topic.to_string(),
+                    qos,
+                    payload.to_vec(),
+                    packet_id,
+                    retain,
+                    false, // dup
+                ))?;
+            } else {
+                self.send_packet(publishv5::MqttPublish::new(
+                    qos,
+                    topic.to_string(),
+                    packet_id,
+                    payload.to_vec(),
+                    retain,
+                    false, // dup
+                ))?;
+            }
 
             // For QoS 1/2, track the packet_id in session state for retransmission
             if let Some(pid) = packet_id {
@@ -973,16 +1010,16 @@ impl MqttClient {
 
     /// Send PINGREQ packet without waiting for PINGRESP
     pub fn ping_send(&mut self) -> io::Result<()> {
-        let pingreq_packet = pingreqv5::MqttPingReq::new();
-        self.send_packet(pingreq_packet)
+        if self.is_v3() {
+            self.send_packet(pingreqv3::MqttPingReq::new())
+        } else {
+            self.send_packet(pingreqv5::MqttPingReq::new())
+        }
     }
 
     /// Send DISCONNECT packet without waiting (DISCONNECT has no response)
     pub fn disconnect_send(&mut self) -> io::Result<()> {
-        let disconnect_packet = disconnectv5::MqttDisconnect::new(0, vec![]); // reason code 0, no properties
-        self.send_packet(disconnect_packet)?;
-        self.close_stream();
-        Ok(())
+        self.disconnected(0) // reason code 0, no properties
     }
 
     // Session state management methods
-- 
2.43.0


From 467916e1450563934b43fefe547b61636fe5a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:59 +0000
Subject: [PATCH 56/88] fix: the blocking client reuses packet identifiers of
 pending operations

---
 src/mqtt_client/client.rs | 43 ++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index 3506271..c48530e 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -457,8 +457,8 @@ impl MqttClient {
 
     // Subscribe to a topic and wait for SUBACK
     pub fn subscribed(&mut self, topic: &str, qos: u8) -> io::Result<SubscribeResult> {
-        if let Some(session) = &mut self.context.session {
-            let packet_id = session.next_packet_id();
+        if self.context.session.is_some() {
+            let packet_id = self.next_packet_id()?;
 
             if self.is_v3() {
                 // MQTT v3.1.1
@@ -529,9 +529,9 @@ impl MqttClient {
 
     // Unsubscribe from topics and wait for UNSUBACK
     pub fn unsubscribed(&mut self, topics: Vec<&str>) -> io::Result<UnsubscribeResult> {
-        if let Some(session) = &mut self.context.session {
+        if self.context.session.is_some() {
             let topic_filters: Vec<String> = topics.iter().map(|&s| s.to_string()).collect();
-            let packet_id = session.next_packet_id();
+            let packet_id = self.next_packet_id()?;
 
             if self.is_v3() {
                 // MQTT v3.1.1
@@ -602,9 +602,9 @@ impl MqttClient {
         qos: u8,
         retain: bool,
     ) -> io::Result<PublishResult> {
-        if let Some(session) = &mut self.context.session {
+        if self.context.session.is_some() {
             let packet_id = if qos > 0 {
-                Some(session.next_packet_id())
+                Some(self.next_packet_id()?)
             } else {
                 None
             };
@@ -885,8 +885,8 @@ impl MqttClient {
 
     /// Send SUBSCRIBE packet without waiting for SUBACK
     pub fn subscribe_send(&mut self, topic: &str, qos: u8) -> io::Result<u16> {
-        if let Some(session) = &mut self.context.session {
-            let packet_id = session.next_packet_id();
+        if self.context.session.is_some() {
+            let packet_id = self.next_packet_id()?;
 
             // Send SUBSCRIBE packet without waiting for SUBACK
             if self.is_v3() {
@@ -925,9 +925,9 @@ impl MqttClient {
 
     /// Send UNSUBSCRIBE packet without waiting for UNSUBACK
     pub fn unsubscribe_send(&mut self, topics: Vec<&str>) -> io::Result<u16> {
-        if let Some(session) = &mut self.context.session {
+        if self.context.session.is_some() {
             let topic_filters: Vec<String> = topics.iter().map(|&s| s.to_string()).collect();
-            let packet_id = session.next_packet_id();
+            let packet_id = self.next_packet_id()?;
 
             // Send UNSUBSCRIBE packet without waiting for UNSUBACK
             if self.is_v3() {
@@ -967,9 +967,9 @@ impl MqttClient {
         qos: u8,
         retain: bool,
     ) -> io::Result<Option<u16>> {
-        if let Some(session) = &mut self.context.session {
+        if self.context.session.is_some() {
             let packet_id = if qos > 0 {
-                Some(session.next_packet_id())
+                Some(self.next_packet_id()?)
             } else {
                 None
             };
@@ -1061,6 +1061,25 @@ impl MqttClient {
         self.context.pending_publishes.clear();
     }
 
+    /// Next packet identifier that no pending operation uses
+    fn next_packet_id(&mut self) -> io::Result<u16> {
+        let context = &mut self.context;
+        let session = context
+            .session
+            .as_mut()
+            .ok_or_else(|| io::Error::other("No active session"))?;
+        for _ in 0..u16::MAX {
+            let packet_id = session.next_packet_id();
+            if !context.pending_subscribes.contains_key(&packet_id)
+                && !context.pending_unsubscribes.contains_key(&packet_id)
+                && !context.pending_publishes.contains_key(&packet_id)
+            {
+                return Ok(packet_id);
+            }
+        }
+        Err(io::Error::other("No packet identifier available"))
+    }
+
     fn send_packet<T>(&mut self, packet: T) -> io::Result<()>
     where
         T: MqttControlPacket,
-- 
2.43.0


From 3c224e89f71b351e65f775d561d3ab9962217b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:15 +0000
Subject: [PATCH 57/88] fix: the thread client never sees that it is connected,
 and commands wait for packets

---
 src/mqtt_client/async_client.rs | 31 ++++++++++++++++++++++++-------
 src/mqtt_client/client.rs       | 13 ++++++++++++-
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/mqtt_client/async_client.rs b/src/mqtt_client/async_client.rs
index 74510f7..0f0854d 100644
--- a/src/mqtt_client/async_client.rs
+++ b/src/mqtt_client/async_client.rs
@@ -287,6 +287,9 @@ impl Drop for AsyncMqttClient {
     }
 }
 
+/// How long the worker waits for a packet before it looks at commands again
+const READ_TIMEOUT: Duration = Duration::from_millis(1);
+
 /// Worker thread that handles MQTT operations
 struct ClientWorker {
     /// The underlying synchronous MQTT client
@@ -299,6 +302,8 @@ struct ClientWorker {
     config: AsyncClientConfig,
     /// Current connection state
     is_connected: bool,
+    /// CONNECT was sent, CONNACK has not arrived
+    is_connecting: bool,
     /// Reconnection state
     reconnect_attempts: u32,
     /// Message buffer for when disconnected
@@ -323,6 +328,7 @@ impl ClientWorker {
             command_rx,
             config,
             is_connected: false,
+            is_connecting: false,
             reconnect_attempts: 0,
             message_buffer: Vec::new(),
             pending_subscribes: HashMap::new(),
@@ -350,10 +356,8 @@ impl ClientWorker {
                 }
             }
 
-            // Read incoming messages if connected
-            if self.is_connected {
-                self.handle_incoming_messages();
-            }
+            // Read what has arrived
+            while (self.is_connected || self.is_connecting) && self.handle_incoming_messages() {}
         }
     }
 
@@ -399,6 +403,12 @@ impl ClientWorker {
         match self.client.connect_send() {
             Ok(_) => {
                 // Connect packet sent, will wait for CONNACK in handle_incoming_messages
+                self.is_connected = false;
+                self.is_connecting = true;
+                // Reading must not keep commands waiting
+                if let Err(e) = self.client.set_read_timeout(Some(READ_TIMEOUT)) {
+                    self.event_handler.on_error(&e);
+                }
             }
             Err(e) => {
                 self.event_handler.on_error(&e);
@@ -487,10 +497,12 @@ impl ClientWorker {
         match self.client.disconnect_send() {
             Ok(_) => {
                 self.is_connected = false;
+                self.is_connecting = false;
                 self.event_handler.on_disconnected(Some(0)); // Normal disconnect
             }
             Err(e) => {
                 self.is_connected = false;
+                self.is_connecting = false;
                 self.event_handler.on_error(&e);
                 self.event_handler.on_disconnected(None);
             }
@@ -502,13 +514,14 @@ impl ClientWorker {
         // Could add periodic ping, connection health checks, etc.
     }
 
-    /// Handle incoming messages from broker
-    fn handle_incoming_messages(&mut self) {
+    /// Handle the next incoming message from the broker, if there is one
+    fn handle_incoming_messages(&mut self) -> bool {
         // Try to receive a message with a short timeout to avoid blocking
         match self.client.recv_packet() {
             Ok(Some(packet)) => match packet {
                 MqttPacket::ConnAck5(connack) => {
                     // Handle CONNACK response
+                    self.is_connecting = false;
                     self.is_connected = connack.reason_code == 0;
                     self.reconnect_attempts = 0;
 
@@ -616,6 +629,7 @@ impl ClientWorker {
                 match e.kind() {
                     io::ErrorKind::TimedOut | io::ErrorKind::WouldBlock => {
                         // Normal timeout, continue
+                        return false;
                     }
                     _ => {
                         self.event_handler.on_error(&e);
@@ -624,12 +638,15 @@ impl ClientWorker {
                 }
             }
         }
+        true
     }
 
     /// Handle connection lost
     fn handle_connection_lost(&mut self) {
-        if self.is_connected {
+        if self.is_connected || self.is_connecting {
             self.is_connected = false;
+            self.is_connecting = false;
+            self.client.close_stream();
             self.event_handler.on_connection_lost();
 
             if self.config.auto_reconnect {
diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index c48530e..72e0fde 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -22,12 +22,14 @@ use crate::mqtt_serde::mqttv3::pubrelv3;
 use crate::mqtt_serde::mqttv3::subscribev3;
 use crate::mqtt_serde::mqttv3::unsubscribev3;
 
+use crate::mqtt_serde::parser::ParseError;
 use crate::mqtt_serde::MqttStream;
 
 use super::MqttClientOptions;
 use std::collections::HashMap;
 use std::io;
 use std::net::{Shutdown, TcpStream};
+use std::time::Duration;
 
 pub struct Subscription {
     pub topic: String,
@@ -785,8 +787,16 @@ impl MqttClient {
         Ok(())
     }
 
+    /// Bounds the time that reading from the current connection may take
+    pub(crate) fn set_read_timeout(&mut self, timeout: Option<Duration>) -> io::Result<()> {
+        match &mut self.context.mqtt_stream {
+            Some(stream) => stream.mut_stream().set_read_timeout(timeout),
+            None => Ok(()),
+        }
+    }
+
     /// Closes the network connection, as is required after a DISCONNECT
-    fn close_stream(&mut self) {
+    pub(crate) fn close_stream(&mut self) {
         if let Some(mut stream) = self.context.mqtt_stream.take() {
             let _ = stream.mut_stream().shutdown(Shutdown::Write);
         }
@@ -1125,6 +1135,7 @@ impl MqttClient {
         // MqttStream version is set at creation time, so next() will parse with correct version
         match stream.next() {
             Some(Ok(packet)) => Ok(Some(packet)),
+            Some(Err(ParseError::IoError(e))) => Err(e),
             Some(Err(parse_error)) => Err(io::Error::new(
                 io::ErrorKind::InvalidData,
                 format!("Failed to parse MQTT packet: {:?}", parse_error),
-- 
2.43.0


From e321e947467db88620f7d50269757de7a64886e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:15 +0000
Subject: [PATCH 58/88] fix: the thread client sleeps between connection
 attempts without looking at commands, for ever

---
 src/mqtt_client/async_client.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/mqtt_client/async_client.rs b/src/mqtt_client/async_client.rs
index 0f0854d..f8fdb06 100644
--- a/src/mqtt_client/async_client.rs
+++ b/src/mqtt_client/async_client.rs
@@ -4,7 +4,7 @@ use std::collections::HashMap;
 use std::io;
 use std::sync::mpsc::{self, Receiver, Sender};
 use std::thread::{self, JoinHandle};
-use std::time::Duration;
+use std::time::{Duration, Instant};
 
 use crate::mqtt_serde::control_packet::MqttPacket;
 use crate::mqtt_serde::mqttv5::publishv5::MqttPublish;
@@ -306,6 +306,8 @@ struct ClientWorker {
     is_connecting: bool,
     /// Reconnection state
     reconnect_attempts: u32,
+    /// When to connect again
+    reconnect_at: Option<Instant>,
     /// Message buffer for when disconnected
     message_buffer: Vec<(String, Vec<u8>, u8, bool)>, // (topic, payload, qos, retain)
     /// Pending operations tracking
@@ -330,6 +332,7 @@ impl ClientWorker {
             is_connected: false,
             is_connecting: false,
             reconnect_attempts: 0,
+            reconnect_at: None,
             message_buffer: Vec::new(),
             pending_subscribes: HashMap::new(),
         }
@@ -356,6 +359,10 @@ impl ClientWorker {
                 }
             }
 
+            if self.reconnect_at.is_some_and(|at| at <= Instant::now()) {
+                self.handle_connect();
+            }
+
             // Read what has arrived
             while (self.is_connected || self.is_connecting) && self.handle_incoming_messages() {}
         }
@@ -391,8 +398,10 @@ impl ClientWorker {
                 return false; // Exit worker loop
             }
             ClientCommand::SetAutoReconnect { enabled } => {
-                // Update config (we'd need to make config mutable)
-                let _ = enabled; // For now, just acknowledge
+                self.config.auto_reconnect = enabled;
+                if !enabled {
+                    self.reconnect_at = None;
+                }
             }
         }
         true
@@ -400,6 +409,7 @@ impl ClientWorker {
 
     /// Handle connect command
     fn handle_connect(&mut self) {
+        self.reconnect_at = None;
         match self.client.connect_send() {
             Ok(_) => {
                 // Connect packet sent, will wait for CONNACK in handle_incoming_messages
@@ -494,6 +504,7 @@ impl ClientWorker {
 
     /// Handle disconnect command
     fn handle_disconnect(&mut self) {
+        self.reconnect_at = None;
         match self.client.disconnect_send() {
             Ok(_) => {
                 self.is_connected = false;
@@ -669,13 +680,14 @@ impl ClientWorker {
 
         // Calculate delay with exponential backoff
         let delay = std::cmp::min(
-            self.config.reconnect_delay_ms * (1 << (self.reconnect_attempts - 1)),
+            self.config
+                .reconnect_delay_ms
+                .saturating_mul(1u64.checked_shl(self.reconnect_attempts - 1).unwrap_or(u64::MAX)),
             self.config.max_reconnect_delay_ms,
         );
 
-        // Sleep and then attempt reconnect
-        thread::sleep(Duration::from_millis(delay));
-        self.handle_connect();
+        // The worker loop connects when the time has come
+        self.reconnect_at = Some(Instant::now() + Duration::from_millis(delay));
     }
 
     /// Process buffered messages after connection
-- 
2.43.0


From a3bde79374778d938520a396cbd8f335e443eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:15 +0000
Subject: [PATCH 59/88] fix: the thread client never completes a QoS 2 publish

---
 src/mqtt_client/async_client.rs | 23 +++++++++++++++++++----
 src/mqtt_client/client.rs       |  9 +++++++++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/async_client.rs b/src/mqtt_client/async_client.rs
index f8fdb06..3ec2717 100644
--- a/src/mqtt_client/async_client.rs
+++ b/src/mqtt_client/async_client.rs
@@ -598,10 +598,25 @@ impl ClientWorker {
 
                     self.event_handler.on_published(&result);
                 }
-                MqttPacket::PubRec5(_pubrec) => {
-                    // Handle PUBREC response (QoS 2 - first part)
-                    // The underlying client will handle PUBREL automatically
-                    // We just wait for PUBCOMP to complete the flow
+                MqttPacket::PubRec5(pubrec) if pubrec.reason_code >= 0x80 => {
+                    // The broker refused the message, which ends the flow
+                    let result = PublishResult {
+                        packet_id: Some(pubrec.packet_id),
+                        reason_code: Some(pubrec.reason_code),
+                        properties: Some(pubrec.properties),
+                        qos: 2,
+                    };
+
+                    self.client.complete_publish(pubrec.packet_id);
+
+                    self.event_handler.on_published(&result);
+                }
+                MqttPacket::PubRec5(pubrec) => {
+                    // Handle PUBREC response (QoS 2 - first part),
+                    // PUBCOMP completes the flow
+                    if let Err(e) = self.client.pubrel_send(pubrec.packet_id) {
+                        self.event_handler.on_error(&e);
+                    }
                 }
                 MqttPacket::PubComp5(pubcomp) => {
                     // Handle PUBCOMP response (QoS 2 - completion)
diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index 72e0fde..e35d98c 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -1018,6 +1018,15 @@ impl MqttClient {
         }
     }
 
+    /// Send PUBREL packet without waiting for PUBCOMP
+    pub(crate) fn pubrel_send(&mut self, packet_id: u16) -> io::Result<()> {
+        if self.is_v3() {
+            self.send_packet(pubrelv3::MqttPubRel::new(packet_id))
+        } else {
+            self.send_packet(pubrelv5::MqttPubRel::new(packet_id, 0, vec![]))
+        }
+    }
+
     /// Send PINGREQ packet without waiting for PINGRESP
     pub fn ping_send(&mut self) -> io::Result<()> {
         if self.is_v3() {
-- 
2.43.0


From 938ef0492db10682dcaab81abdae91a0784d94c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:15 +0000
Subject: [PATCH 60/88] fix: the thread client drops the newest messages when
 its buffer is full

---
 src/mqtt_client/async_client.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/async_client.rs b/src/mqtt_client/async_client.rs
index 3ec2717..9f414db 100644
--- a/src/mqtt_client/async_client.rs
+++ b/src/mqtt_client/async_client.rs
@@ -732,10 +732,13 @@ impl ClientWorker {
 
     /// Buffer a message for later sending
     fn buffer_message(&mut self, topic: &str, payload: &[u8], qos: u8, retain: bool) {
-        if self.message_buffer.len() < self.config.max_buffer_size {
+        // If buffer is full, oldest messages are dropped (FIFO)
+        while self.message_buffer.len() >= self.config.max_buffer_size.max(1) {
+            self.message_buffer.remove(0);
+        }
+        if self.config.max_buffer_size > 0 {
             self.message_buffer
                 .push((topic.to_string(), payload.to_vec(), qos, retain));
         }
-        // If buffer is full, oldest messages are dropped (FIFO)
     }
 }
-- 
2.43.0


From d283be578693a79e47dcdfea03daafde72e90ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:15 +0000
Subject: [PATCH 61/88] fix: shutting down the thread client does not send
 DISCONNECT

---
 src/mqtt_client/async_client.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt_client/async_client.rs b/src/mqtt_client/async_client.rs
index 9f414db..d860ebc 100644
--- a/src/mqtt_client/async_client.rs
+++ b/src/mqtt_client/async_client.rs
@@ -395,6 +395,9 @@ impl ClientWorker {
                 self.handle_disconnect();
             }
             ClientCommand::Shutdown => {
+                if self.is_connected {
+                    let _ = self.client.disconnect_send();
+                }
                 return false; // Exit worker loop
             }
             ClientCommand::SetAutoReconnect { enabled } => {
-- 
2.43.0


From 6554bd47f1ec144e00a12dcc5d7f62d0823921bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:03 +0000
Subject: [PATCH 62/88] fix: the thread client ignores everything an MQTT 3.1.1
 broker sends

---
 src/mqtt_client/async_client.rs | 48 ++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/async_client.rs b/src/mqtt_client/async_client.rs
index d860ebc..f8d49d5 100644
--- a/src/mqtt_client/async_client.rs
+++ b/src/mqtt_client/async_client.rs
@@ -8,6 +8,9 @@ use std::time::{Duration, Instant};
 
 use crate::mqtt_serde::control_packet::MqttPacket;
 use crate::mqtt_serde::mqttv5::publishv5::MqttPublish;
+use crate::mqtt_serde::mqttv5::{
+    connackv5, pingrespv5, pubackv5, pubcompv5, pubrecv5, pubrelv5, subackv5, unsubackv5,
+};
 
 use super::client::{
     ConnectionResult, MqttClient, PingResult, PublishResult, SubscribeResult, UnsubscribeResult,
@@ -287,6 +290,49 @@ impl Drop for AsyncMqttClient {
     }
 }
 
+/// Converts what MQTT 3.1.1 brokers send, so that it is handled in one place
+fn packet_to_v5(packet: MqttPacket) -> MqttPacket {
+    match packet {
+        MqttPacket::ConnAck3(p) => MqttPacket::ConnAck5(connackv5::MqttConnAck::new(
+            p.session_present,
+            p.return_code,
+            None,
+        )),
+        MqttPacket::SubAck3(p) => MqttPacket::SubAck5(subackv5::MqttSubAck::new(
+            p.message_id,
+            p.return_codes,
+            vec![],
+        )),
+        MqttPacket::UnsubAck3(p) => MqttPacket::UnsubAck5(unsubackv5::MqttUnsubAck::new(
+            p.message_id,
+            vec![],
+            vec![],
+        )),
+        MqttPacket::PubAck3(p) => {
+            MqttPacket::PubAck5(pubackv5::MqttPubAck::new(p.message_id, 0, vec![]))
+        }
+        MqttPacket::PubRec3(p) => {
+            MqttPacket::PubRec5(pubrecv5::MqttPubRec::new(p.message_id, 0, vec![]))
+        }
+        MqttPacket::PubRel3(p) => {
+            MqttPacket::PubRel5(pubrelv5::MqttPubRel::new(p.message_id, 0, vec![]))
+        }
+        MqttPacket::PubComp3(p) => {
+            MqttPacket::PubComp5(pubcompv5::MqttPubComp::new(p.message_id, 0, vec![]))
+        }
+        MqttPacket::PingResp3(_) => MqttPacket::PingResp5(pingrespv5::MqttPingResp::new()),
+        MqttPacket::Publish3(p) => MqttPacket::Publish5(MqttPublish::new(
+            p.qos,
+            p.topic_name,
+            p.message_id,
+            p.payload,
+            p.retain,
+            p.dup,
+        )),
+        packet => packet,
+    }
+}
+
 /// How long the worker waits for a packet before it looks at commands again
 const READ_TIMEOUT: Duration = Duration::from_millis(1);
 
@@ -532,7 +578,7 @@ impl ClientWorker {
     fn handle_incoming_messages(&mut self) -> bool {
         // Try to receive a message with a short timeout to avoid blocking
         match self.client.recv_packet() {
-            Ok(Some(packet)) => match packet {
+            Ok(Some(packet)) => match packet_to_v5(packet) {
                 MqttPacket::ConnAck5(connack) => {
                     // Handle CONNACK response
                     self.is_connecting = false;
-- 
2.43.0


From e08f423689d5dd86e25cc636c6b996b6f8f60cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:03 +0000
Subject: [PATCH 63/88] fix: the thread client never acknowledges a message

---
 src/mqtt_client/async_client.rs | 68 +++++++++++++++++++++++----------
 src/mqtt_client/client.rs       | 37 +++++++++++++++++-
 2 files changed, 84 insertions(+), 21 deletions(-)

diff --git a/src/mqtt_client/async_client.rs b/src/mqtt_client/async_client.rs
index f8d49d5..05f7aae 100644
--- a/src/mqtt_client/async_client.rs
+++ b/src/mqtt_client/async_client.rs
@@ -1,6 +1,6 @@
 // SPDX-License-Identifier: MPL-2.0
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io;
 use std::sync::mpsc::{self, Receiver, Sender};
 use std::thread::{self, JoinHandle};
@@ -303,11 +303,9 @@ fn packet_to_v5(packet: MqttPacket) -> MqttPacket {
             p.return_codes,
             vec![],
         )),
-        MqttPacket::UnsubAck3(p) => MqttPacket::UnsubAck5(unsubackv5::MqttUnsubAck::new(
-            p.message_id,
-            vec![],
-            vec![],
-        )),
+        MqttPacket::UnsubAck3(p) => {
+            MqttPacket::UnsubAck5(unsubackv5::MqttUnsubAck::new(p.message_id, vec![], vec![]))
+        }
         MqttPacket::PubAck3(p) => {
             MqttPacket::PubAck5(pubackv5::MqttPubAck::new(p.message_id, 0, vec![]))
         }
@@ -352,6 +350,8 @@ struct ClientWorker {
     is_connecting: bool,
     /// Reconnection state
     reconnect_attempts: u32,
+    /// Incoming QoS 2 messages that are not released yet
+    received_qos2: HashSet<u16>,
     /// When to connect again
     reconnect_at: Option<Instant>,
     /// Message buffer for when disconnected
@@ -378,6 +378,7 @@ impl ClientWorker {
             is_connected: false,
             is_connecting: false,
             reconnect_attempts: 0,
+            received_qos2: HashSet::new(),
             reconnect_at: None,
             message_buffer: Vec::new(),
             pending_subscribes: HashMap::new(),
@@ -584,6 +585,9 @@ impl ClientWorker {
                     self.is_connecting = false;
                     self.is_connected = connack.reason_code == 0;
                     self.reconnect_attempts = 0;
+                    if !connack.session_present {
+                        self.received_qos2.clear();
+                    }
 
                     let result = ConnectionResult {
                         reason_code: connack.reason_code,
@@ -616,21 +620,27 @@ impl ClientWorker {
                     self.event_handler.on_subscribed(&result);
                 }
                 MqttPacket::UnsubAck5(unsuback) => {
-                    // Handle UNSUBACK response
+                    // Remove from pending unsubscriptions
+                    let topics = self
+                        .client
+                        .complete_unsubscribe(unsuback.packet_id)
+                        .unwrap_or_default();
+                    for topic in &topics {
+                        // Remove from pending subscriptions as well
+                        self.pending_subscribes.remove(topic);
+                    }
+
+                    // Handle UNSUBACK response; MQTT 3.1.1 has no reason codes
                     let result = UnsubscribeResult {
                         packet_id: unsuback.packet_id,
-                        reason_codes: unsuback.reason_codes,
+                        reason_codes: if self.client.is_v3() {
+                            vec![0; topics.len()]
+                        } else {
+                            unsuback.reason_codes
+                        },
                         properties: unsuback.properties,
                     };
 
-                    // Remove from pending unsubscriptions
-                    if let Some(topics) = self.client.complete_unsubscribe(unsuback.packet_id) {
-                        // Remove from pending subscriptions as well
-                        for topic in &topics {
-                            self.pending_subscribes.remove(topic);
-                        }
-                    }
-
                     self.event_handler.on_unsubscribed(&result);
                 }
                 MqttPacket::PubAck5(puback) => {
@@ -688,7 +698,24 @@ impl ClientWorker {
                 }
                 MqttPacket::Publish5(publish) => {
                     // Handle incoming published messages
-                    self.event_handler.on_message_received(&publish);
+                    let is_new = match publish.packet_id {
+                        Some(packet_id) if publish.qos == 2 && self.client.auto_ack() => {
+                            self.received_qos2.insert(packet_id)
+                        }
+                        _ => true,
+                    };
+                    if is_new {
+                        self.event_handler.on_message_received(&publish);
+                    }
+                    if let Err(e) = self.client.ack_publish(publish.qos, publish.packet_id) {
+                        self.event_handler.on_error(&e);
+                    }
+                }
+                MqttPacket::PubRel5(pubrel) => {
+                    self.received_qos2.remove(&pubrel.packet_id);
+                    if let Err(e) = self.client.ack_pubrel(pubrel.packet_id) {
+                        self.event_handler.on_error(&e);
+                    }
                 }
                 _ => {
                     // Handle other packet types or store as unhandled
@@ -744,9 +771,10 @@ impl ClientWorker {
 
         // Calculate delay with exponential backoff
         let delay = std::cmp::min(
-            self.config
-                .reconnect_delay_ms
-                .saturating_mul(1u64.checked_shl(self.reconnect_attempts - 1).unwrap_or(u64::MAX)),
+            self.config.reconnect_delay_ms.saturating_mul(
+                1u64.checked_shl(self.reconnect_attempts - 1)
+                    .unwrap_or(u64::MAX),
+            ),
             self.config.max_reconnect_delay_ms,
         );
 
diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index e35d98c..965d68b 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -8,7 +8,10 @@ use crate::mqtt_serde::mqttv5::common::properties::Property;
 use crate::mqtt_serde::mqttv5::connectv5;
 use crate::mqtt_serde::mqttv5::disconnectv5;
 use crate::mqtt_serde::mqttv5::pingreqv5;
+use crate::mqtt_serde::mqttv5::pubackv5;
+use crate::mqtt_serde::mqttv5::pubcompv5;
 use crate::mqtt_serde::mqttv5::publishv5;
+use crate::mqtt_serde::mqttv5::pubrecv5;
 use crate::mqtt_serde::mqttv5::pubrelv5;
 use crate::mqtt_serde::mqttv5::subscribev5;
 use crate::mqtt_serde::mqttv5::unsubscribev5;
@@ -17,7 +20,10 @@ use crate::mqtt_serde::mqttv5::will as willv5;
 use crate::mqtt_serde::mqttv3::connectv3;
 use crate::mqtt_serde::mqttv3::disconnectv3;
 use crate::mqtt_serde::mqttv3::pingreqv3;
+use crate::mqtt_serde::mqttv3::pubackv3;
+use crate::mqtt_serde::mqttv3::pubcompv3;
 use crate::mqtt_serde::mqttv3::publishv3;
+use crate::mqtt_serde::mqttv3::pubrecv3;
 use crate::mqtt_serde::mqttv3::pubrelv3;
 use crate::mqtt_serde::mqttv3::subscribev3;
 use crate::mqtt_serde::mqttv3::unsubscribev3;
@@ -299,7 +305,7 @@ impl MqttClient {
     }
 
     // Helper methods for protocol version
-    fn is_v3(&self) -> bool {
+    pub(crate) fn is_v3(&self) -> bool {
         self.options.mqtt_version == 3 || self.options.mqtt_version == 4
     }
 
@@ -1027,6 +1033,35 @@ impl MqttClient {
         }
     }
 
+    pub(crate) fn auto_ack(&self) -> bool {
+        self.options.auto_ack
+    }
+
+    /// Acknowledge an incoming PUBLISH, if that is wanted
+    pub(crate) fn ack_publish(&mut self, qos: u8, packet_id: Option<u16>) -> io::Result<()> {
+        let Some(packet_id) = packet_id.filter(|_| self.options.auto_ack) else {
+            return Ok(());
+        };
+        match (qos, self.is_v3()) {
+            (1, true) => self.send_packet(pubackv3::MqttPubAck::new(packet_id)),
+            (1, false) => self.send_packet(pubackv5::MqttPubAck::new(packet_id, 0, vec![])),
+            (2, true) => self.send_packet(pubrecv3::MqttPubRec::new(packet_id)),
+            (2, false) => self.send_packet(pubrecv5::MqttPubRec::new(packet_id, 0, vec![])),
+            _ => Ok(()),
+        }
+    }
+
+    /// Acknowledge an incoming PUBREL, if that is wanted
+    pub(crate) fn ack_pubrel(&mut self, packet_id: u16) -> io::Result<()> {
+        if !self.options.auto_ack {
+            Ok(())
+        } else if self.is_v3() {
+            self.send_packet(pubcompv3::MqttPubComp::new(packet_id))
+        } else {
+            self.send_packet(pubcompv5::MqttPubComp::new(packet_id, 0, vec![]))
+        }
+    }
+
     /// Send PINGREQ packet without waiting for PINGRESP
     pub fn ping_send(&mut self) -> io::Result<()> {
         if self.is_v3() {
-- 
2.43.0


From c9af31fd110a3fb0d754a1073ba4161cd46c7444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:14 +0000
Subject: [PATCH 64/88] fix: the thread client subscribes twice when that is
 asked before CONNACK

---
 src/mqtt_client/async_client.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mqtt_client/async_client.rs b/src/mqtt_client/async_client.rs
index 05f7aae..fe8293c 100644
--- a/src/mqtt_client/async_client.rs
+++ b/src/mqtt_client/async_client.rs
@@ -481,6 +481,11 @@ impl ClientWorker {
 
     /// Handle subscribe command
     fn handle_subscribe(&mut self, topic: &str, qos: u8) {
+        if self.is_connecting {
+            // Subscribed when CONNACK arrives, with the other pending ones
+            self.pending_subscribes.insert(topic.to_string(), qos);
+            return;
+        }
         match self.client.subscribe_send(topic, qos) {
             Ok(_packet_id) => {
                 // Subscribe packet sent, will wait for SUBACK in handle_incoming_messages
@@ -497,6 +502,11 @@ impl ClientWorker {
 
     /// Handle publish command
     fn handle_publish(&mut self, topic: &str, payload: &[u8], qos: u8, retain: bool) {
+        if self.is_connecting && self.config.buffer_messages {
+            // Published when CONNACK arrives
+            self.buffer_message(topic, payload, qos, retain);
+            return;
+        }
         match self.client.publish_send(topic, payload, qos, retain) {
             Ok(packet_id) => {
                 // For QoS 0, publish is complete immediately
-- 
2.43.0


From dcd184efc15dcd47d84cf62ae86e0940815cb6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:14 +0000
Subject: [PATCH 65/88] fix: the thread client goes on sending to a broker that
 refused the connection

---
 src/mqtt_client/async_client.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt_client/async_client.rs b/src/mqtt_client/async_client.rs
index fe8293c..3066de3 100644
--- a/src/mqtt_client/async_client.rs
+++ b/src/mqtt_client/async_client.rs
@@ -612,6 +612,9 @@ impl ClientWorker {
                         self.process_buffered_messages();
                         // Re-subscribe to pending subscriptions
                         self.resubscribe_pending();
+                    } else {
+                        // Nothing may be sent to a broker that refused
+                        self.client.close_stream();
                     }
                 }
                 MqttPacket::SubAck5(suback) => {
-- 
2.43.0


From e776b6502d8cb05e7588de9696ac67f1f551f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:30 +0000
Subject: [PATCH 66/88] fix: the thread client forgets a subscription that is
 newer than the unsubscription it hears of

---
 src/mqtt_client/async_client.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/mqtt_client/async_client.rs b/src/mqtt_client/async_client.rs
index 3066de3..6065704 100644
--- a/src/mqtt_client/async_client.rs
+++ b/src/mqtt_client/async_client.rs
@@ -638,10 +638,6 @@ impl ClientWorker {
                         .client
                         .complete_unsubscribe(unsuback.packet_id)
                         .unwrap_or_default();
-                    for topic in &topics {
-                        // Remove from pending subscriptions as well
-                        self.pending_subscribes.remove(topic);
-                    }
 
                     // Handle UNSUBACK response; MQTT 3.1.1 has no reason codes
                     let result = UnsubscribeResult {
-- 
2.43.0


From d1b9ac62f805d52d9505ec530d01c0e72d71c3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:31 +0000
Subject: [PATCH 67/88] fix: the gRPC packets cannot tell an empty user name or
 password from none

---
 mqtt_grpc_duality/proto/mqttv3.proto |  4 ++--
 mqtt_grpc_duality/proto/mqttv5.proto |  4 ++--
 mqtt_grpc_duality/src/lib.rs         | 32 +++++++---------------------
 3 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/mqtt_grpc_duality/proto/mqttv3.proto b/mqtt_grpc_duality/proto/mqttv3.proto
index 85408fa..11927c3 100644
--- a/mqtt_grpc_duality/proto/mqttv3.proto
+++ b/mqtt_grpc_duality/proto/mqttv3.proto
@@ -35,9 +35,9 @@ message Connect {
   // Keep-alive timer in seconds (16-bit).
   uint32 keep_alive = 5;
   // Username (optional).
-  string username = 6;
+  optional string username = 6;
   // Password (optional, binary data).
-  bytes password = 7;
+  optional bytes password = 7;
   // Will message (optional).
   Will will = 8;
 }
diff --git a/mqtt_grpc_duality/proto/mqttv5.proto b/mqtt_grpc_duality/proto/mqttv5.proto
index 63bb659..ecdf4a5 100644
--- a/mqtt_grpc_duality/proto/mqttv5.proto
+++ b/mqtt_grpc_duality/proto/mqttv5.proto
@@ -75,9 +75,9 @@ message Connect {
   // Keep-alive timer in seconds (16-bit).
   uint32 keep_alive = 5;
   // Username (optional).
-  string username = 6;
+  optional string username = 6;
   // Password (optional, binary data).
-  bytes password = 7;
+  optional bytes password = 7;
   // Will message (optional).
   Will will = 8;
   // MQTT 5.0 properties.
diff --git a/mqtt_grpc_duality/src/lib.rs b/mqtt_grpc_duality/src/lib.rs
index f53972b..5d6317a 100644
--- a/mqtt_grpc_duality/src/lib.rs
+++ b/mqtt_grpc_duality/src/lib.rs
@@ -187,8 +187,8 @@ impl From<MqttConnect> for mqttv5pb::Connect {
             protocol_version: connect.protocol_version as u32,
             clean_start: connect.is_clean_start(),
             keep_alive: connect.keep_alive as u32,
-            username: connect.username.unwrap_or_default(),
-            password: connect.password.unwrap_or_default(),
+            username: connect.username,
+            password: connect.password,
             will: connect.will.map(|will| mqttv5pb::Will {
                 qos: will.will_qos as i32,
                 retain: will.will_retain,
@@ -436,16 +436,8 @@ impl From<mqttv5pb::Connect> for MqttConnect {
 
         MqttConnect::new(
             connect.client_id,
-            if connect.username.is_empty() {
-                None
-            } else {
-                Some(connect.username)
-            },
-            if connect.password.is_empty() {
-                None
-            } else {
-                Some(connect.password)
-            },
+            connect.username,
+            connect.password,
             connect
                 .will
                 .map(|will| flowsdk::mqtt_serde::mqttv5::will::Will {
@@ -724,8 +716,8 @@ impl From<MqttConnectV3> for mqttv3pb::Connect {
             protocol_version: connect.protocol_version as u32,
             clean_session: connect.clean_session,
             keep_alive: connect.keep_alive as u32,
-            username: connect.username.unwrap_or_default(),
-            password: connect.password.unwrap_or_default(),
+            username: connect.username,
+            password: connect.password,
             will: connect.will.map(|will| mqttv3pb::Will {
                 qos: will.qos as i32,
                 retain: will.retain,
@@ -857,16 +849,8 @@ impl From<mqttv3pb::Connect> for MqttConnectV3 {
             client_id: connect.client_id,
             clean_session: connect.clean_session,
             keep_alive: connect.keep_alive as u16,
-            username: if connect.username.is_empty() {
-                None
-            } else {
-                Some(connect.username)
-            },
-            password: if connect.password.is_empty() {
-                None
-            } else {
-                Some(connect.password)
-            },
+            username: connect.username,
+            password: connect.password,
             will,
         }
     }
-- 
2.43.0


From aca7263d610aa2a53cd587240ff463127533bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:31 +0000
Subject: [PATCH 68/88] fix: a QoS 0 message that comes over gRPC has packet
 identifier 0

---
 mqtt_grpc_duality/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mqtt_grpc_duality/src/lib.rs b/mqtt_grpc_duality/src/lib.rs
index 5d6317a..69fa4d6 100644
--- a/mqtt_grpc_duality/src/lib.rs
+++ b/mqtt_grpc_duality/src/lib.rs
@@ -310,7 +310,12 @@ impl From<mqttv5pb::Publish> for MqttPublish {
         let mut mqtt_publish = MqttPublish::new(
             publish.qos as u8,
             publish.topic,
-            Some(publish.message_id as u16),
+            // as for MQTT v3: there is none with QoS 0
+            if publish.message_id == 0 {
+                None
+            } else {
+                Some(publish.message_id as u16)
+            },
             publish.payload,
             publish.retain,
             publish.dup,
-- 
2.43.0


From 2a7819ec0498a0d4b43215b78b3625f0d06bb04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:16 +0000
Subject: [PATCH 69/88] fix: s-proxy mixes up clients that have the same
 identifier, or none

---
 mqtt_grpc_duality/src/bin/s-proxy.rs | 111 +++++++--------------------
 1 file changed, 27 insertions(+), 84 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/s-proxy.rs b/mqtt_grpc_duality/src/bin/s-proxy.rs
index c99a5d3..d34d51e 100644
--- a/mqtt_grpc_duality/src/bin/s-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/s-proxy.rs
@@ -1,7 +1,5 @@
 // SPDX-License-Identifier: MPL-2.0
 
-use dashmap::DashMap;
-use std::sync::Arc;
 use std::{env, net::SocketAddr};
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 #[cfg(unix)]
@@ -28,25 +26,14 @@ pub enum BrokerControlMessage {
     Packet(flowsdk::mqtt_serde::control_packet::MqttPacket),
 }
 
-type ConnectionInfo = (
-    mpsc::Sender<BrokerControlMessage>, // Control message sender for all MQTT commands
-    mpsc::Sender<Result<MqttStreamMessage, Status>>, // Response stream sender
-    String,                             // session_id
-);
-
 #[derive(Debug)]
 pub struct MyRelay {
-    // Shared state for managing connections - store publish sender and response stream sender
-    connections: Arc<DashMap<String, ConnectionInfo>>,
     broker_addr: SocketAddr,
 }
 
 impl MyRelay {
     pub fn new(broker_addr: SocketAddr) -> Self {
-        Self {
-            connections: Arc::new(DashMap::new()),
-            broker_addr,
-        }
+        Self { broker_addr }
     }
 }
 
@@ -79,7 +66,6 @@ impl MqttRelayService for MyRelay {
 
         let mut incoming_stream = request.into_inner();
         let (response_tx, response_rx) = tokio::sync::mpsc::channel(128);
-        let connections = self.connections.clone();
         let broker_addr = self.broker_addr; // Capture broker_addr before move
 
         let token = CancellationToken::new();
@@ -87,6 +73,10 @@ impl MqttRelayService for MyRelay {
         // Handle the bidirectional stream
         tokio::spawn(async move {
             let session_id = session_id_from_metadata; // Use session_id from metadata (owned)
+
+            // The broker connection of this stream. Each stream has one of its own: client
+            // identifiers may be empty, or used again before the broker has ended the first.
+            let mut broker: Option<mpsc::Sender<BrokerControlMessage>> = None;
             loop {
                 let cloned_token: CancellationToken = token.clone();
 
@@ -109,44 +99,30 @@ impl MqttRelayService for MyRelay {
                                 mqtt_unified_pb::mqtt_stream_message::Payload::MqttV3Packet(
                                     packet,
                                 ) => {
-                                    if let Some(p) = packet.packet {
-                                        if let Some(client_id) =
-                                            find_client_by_session(&connections, &session_id)
+                                    if let (Some(p), Some(broker_tx)) = (packet.packet, &broker) {
+                                        if let Err(e) = broker_tx
+                                            .send(BrokerControlMessage::Packet(p.into()))
+                                            .await
                                         {
-                                            if let Some(conn) = connections.get(&client_id) {
-                                                let (broker_tx, _, _) = conn.value();
-                                                if let Err(e) = broker_tx
-                                                    .send(BrokerControlMessage::Packet(p.into()))
-                                                    .await
-                                                {
-                                                    error!(
-                                                        "Failed to forward packet to broker for client {}: {}",
-                                                        client_id, e
-                                                    );
-                                                }
-                                            }
+                                            error!(
+                                                "Failed to forward packet to broker for session {}: {}",
+                                                session_id, e
+                                            );
                                         }
                                     }
                                 }
                                 mqtt_unified_pb::mqtt_stream_message::Payload::MqttV5Packet(
                                     packet,
                                 ) => {
-                                    if let Some(p) = packet.packet {
-                                        if let Some(client_id) =
-                                            find_client_by_session(&connections, &session_id)
+                                    if let (Some(p), Some(broker_tx)) = (packet.packet, &broker) {
+                                        if let Err(e) = broker_tx
+                                            .send(BrokerControlMessage::Packet(p.into()))
+                                            .await
                                         {
-                                            if let Some(conn) = connections.get(&client_id) {
-                                                let (broker_tx, _, _) = conn.value();
-                                                if let Err(e) = broker_tx
-                                                    .send(BrokerControlMessage::Packet(p.into()))
-                                                    .await
-                                                {
-                                                    error!(
-                                                        "Failed to forward packet to broker for client {}: {}",
-                                                        client_id, e
-                                                    );
-                                                }
-                                            }
+                                            error!(
+                                                "Failed to forward packet to broker for session {}: {}",
+                                                session_id, e
+                                            );
                                         }
                                     }
                                 }
@@ -166,22 +142,11 @@ impl MqttRelayService for MyRelay {
                                             info!("Received Establish from client: {}", client_id);
 
                                             // Create broker connection for this client
-                                            let connections = connections.clone();
                                             let response_tx_for_spawn = response_tx.clone();
                                             let session_id_for_spawn = session_id.clone();
-                                                       let (broker_tx, broker_rx) =
-                                                            tokio::sync::mpsc::channel::<BrokerControlMessage>(
-                                                                32,
-                                                            );
-                                                      // Store connection info
-                                                        connections.insert(
-                                                            client_id.clone(),
-                                                            (
-                                                                broker_tx,
-                                                                response_tx_for_spawn.clone(),
-                                                                session_id_for_spawn.clone(),
-                                                            ),
-                                                        );
+                                            let (broker_tx, broker_rx) =
+                                                tokio::sync::mpsc::channel::<BrokerControlMessage>(32);
+                                            broker = Some(broker_tx);
 
                                             tokio::spawn(async move {
                                                 match mqtt_connect_to_broker(broker_addr).await {
@@ -194,7 +159,6 @@ impl MqttRelayService for MyRelay {
                                                         // Start the MQTT client loop to handle broker communication
                                                         mqtt_client_loop_simple(
                                                             cloned_token,
-                                                            connections.clone(),
                                                             broker_rx,
                                                             stream,
                                                             response_tx_for_spawn,
@@ -213,12 +177,8 @@ impl MqttRelayService for MyRelay {
                                             });
                                         }
                                         x if x == mqtt_unified_pb::session_control::ControlType::Terminate as i32 => {
-                                            if let Some(client_id) =
-                                                find_client_by_session(&connections, &session_id)
-                                            {
-                                                debug!("Client {} disconnecting", client_id);
-                                                connections.remove(&client_id);
-                                            }
+                                            debug!("Session {} disconnecting", session_id);
+                                            broker = None;
                                         }
                                         _ => {}
                                     }
@@ -247,7 +207,6 @@ async fn mqtt_connect_to_broker(broker_addr: SocketAddr) -> Result<tokio::net::T
 
 async fn mqtt_client_loop_simple(
     token: CancellationToken,
-    connections: Arc<DashMap<String, ConnectionInfo>>,
     mut rx: mpsc::Receiver<BrokerControlMessage>,
     mut stream: tokio::net::TcpStream,
     response_tx: mpsc::Sender<Result<MqttStreamMessage, Status>>,
@@ -262,7 +221,6 @@ async fn mqtt_client_loop_simple(
             _ = token.cancelled() => {
                 // The token was cancelled
                 info!("Cancellation token triggered, exiting MQTT client loop for session: {}", session_id);
-                connections.remove(&session_id);
                 break;
             }
 
@@ -288,8 +246,7 @@ async fn mqtt_client_loop_simple(
                 match result {
                     Ok(0) => {
                         info!("Connection closed by the broker");
-                        connections.remove(&session_id);
-                        break;
+                                break;
                     }
                     Ok(n) => {
                         debug!("Read {} bytes from broker", n);
@@ -328,20 +285,6 @@ async fn mqtt_client_loop_simple(
     }
 }
 
-// Helper function to find client by session ID
-fn find_client_by_session(
-    connections: &Arc<DashMap<String, ConnectionInfo>>,
-    session_id: &str,
-) -> Option<String> {
-    for entry in connections.iter() {
-        let (_, _, stored_session_id) = entry.value();
-        if stored_session_id == session_id {
-            return Some(entry.key().clone());
-        }
-    }
-    None
-}
-
 #[tokio::main]
 async fn main() -> Result<(), Box<dyn std::error::Error>> {
     tracing_subscriber::fmt::init();
-- 
2.43.0


From 86b87a989d2ccab06001d8e4d4f147e9be965a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:12 +0000
Subject: [PATCH 70/88] fix: s-proxy drops what a client sent before it ended,
 or keeps its broker connection

---
 mqtt_grpc_duality/src/bin/s-proxy.rs | 50 +++++++++++++++-------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/s-proxy.rs b/mqtt_grpc_duality/src/bin/s-proxy.rs
index d34d51e..7981093 100644
--- a/mqtt_grpc_duality/src/bin/s-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/s-proxy.rs
@@ -4,7 +4,6 @@ use std::{env, net::SocketAddr};
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 #[cfg(unix)]
 use tokio::signal::unix::{signal, SignalKind};
-use tokio_util::sync::CancellationToken;
 use tonic::{transport::Server, Request, Response, Status};
 use tracing::{debug, error, info};
 
@@ -68,8 +67,6 @@ impl MqttRelayService for MyRelay {
         let (response_tx, response_rx) = tokio::sync::mpsc::channel(128);
         let broker_addr = self.broker_addr; // Capture broker_addr before move
 
-        let token = CancellationToken::new();
-
         // Handle the bidirectional stream
         tokio::spawn(async move {
             let session_id = session_id_from_metadata; // Use session_id from metadata (owned)
@@ -78,12 +75,11 @@ impl MqttRelayService for MyRelay {
             // identifiers may be empty, or used again before the broker has ended the first.
             let mut broker: Option<mpsc::Sender<BrokerControlMessage>> = None;
             loop {
-                let cloned_token: CancellationToken = token.clone();
-
                 match incoming_stream.next().await {
+                    // Either way the sender of this session goes: the broker still gets what is
+                    // queued, and then its connection is closed
                     None => {
                         debug!("Stream closed by client, exiting grpc stream handler");
-                        token.cancel();
                         break;
                     }
                     Some(Err(e)) => {
@@ -158,7 +154,6 @@ impl MqttRelayService for MyRelay {
 
                                                         // Start the MQTT client loop to handle broker communication
                                                         mqtt_client_loop_simple(
-                                                            cloned_token,
                                                             broker_rx,
                                                             stream,
                                                             response_tx_for_spawn,
@@ -206,7 +201,6 @@ async fn mqtt_connect_to_broker(broker_addr: SocketAddr) -> Result<tokio::net::T
 }
 
 async fn mqtt_client_loop_simple(
-    token: CancellationToken,
     mut rx: mpsc::Receiver<BrokerControlMessage>,
     mut stream: tokio::net::TcpStream,
     response_tx: mpsc::Sender<Result<MqttStreamMessage, Status>>,
@@ -218,22 +212,26 @@ async fn mqtt_client_loop_simple(
 
     loop {
         tokio::select! {
-            _ = token.cancelled() => {
-                // The token was cancelled
-                info!("Cancellation token triggered, exiting MQTT client loop for session: {}", session_id);
-                break;
-            }
-
             // Handle control messages from r-proxy
-            Some(control_msg) = rx.recv() => {
+            control_msg = rx.recv() => {
+                let Some(control_msg) = control_msg else {
+                    info!("Client has ended, closing the broker connection for session: {}", session_id);
+                    if stream.shutdown().await.is_ok() {
+                        drain(&mut stream).await;
+                    }
+                    break;
+                };
                 debug!("Processing control message for broker");
 
                 // Convert control message to MQTT bytes and send to broker
                 let mqtt_bytes = match control_msg {
-                    BrokerControlMessage::Packet(packet) => {
-
-                        packet.to_bytes().unwrap()
-                    }
+                    BrokerControlMessage::Packet(packet) => match packet.to_bytes() {
+                        Ok(mqtt_bytes) => mqtt_bytes,
+                        Err(e) => {
+                            error!("Failed to encode packet for broker: {:?}", e);
+                            break;
+                        }
+                    },
                 };
 
                 if let Err(e) = stream.write_all(&mqtt_bytes).await {
@@ -277,14 +275,20 @@ async fn mqtt_client_loop_simple(
                     }
                 }
             }
-            else => {
-                info!("No more data to read from broker, exiting MQTT client loop for session: {}", session_id);
-                break;
-            }
         }
     }
 }
 
+/// Reads until the peer closes, or for a while: closing a socket that has unread data resets the
+/// connection, and the peer may lose what it has not read yet.
+async fn drain(stream: &mut tokio::net::TcpStream) {
+    let mut buf = [0u8; 4096];
+    let _ = tokio::time::timeout(std::time::Duration::from_secs(5), async {
+        while matches!(stream.read(&mut buf).await, Ok(n) if n > 0) {}
+    })
+    .await;
+}
+
 #[tokio::main]
 async fn main() -> Result<(), Box<dyn std::error::Error>> {
     tracing_subscriber::fmt::init();
-- 
2.43.0


From 0fffc600a00ee3a3bf0f2ff88bd548e924aa8343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:56 +0000
Subject: [PATCH 71/88] fix: the end of the broker's connection does not reach
 the client of s-proxy

---
 mqtt_grpc_duality/src/bin/s-proxy.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/s-proxy.rs b/mqtt_grpc_duality/src/bin/s-proxy.rs
index 7981093..739c464 100644
--- a/mqtt_grpc_duality/src/bin/s-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/s-proxy.rs
@@ -74,6 +74,8 @@ impl MqttRelayService for MyRelay {
             // The broker connection of this stream. Each stream has one of its own: client
             // identifiers may be empty, or used again before the broker has ended the first.
             let mut broker: Option<mpsc::Sender<BrokerControlMessage>> = None;
+            // Goes with the broker connection, so that the response stream ends when that does
+            let mut response_tx = Some(response_tx);
             loop {
                 match incoming_stream.next().await {
                     // Either way the sender of this session goes: the broker still gets what is
@@ -104,6 +106,7 @@ impl MqttRelayService for MyRelay {
                                                 "Failed to forward packet to broker for session {}: {}",
                                                 session_id, e
                                             );
+                                            break;
                                         }
                                     }
                                 }
@@ -119,6 +122,7 @@ impl MqttRelayService for MyRelay {
                                                 "Failed to forward packet to broker for session {}: {}",
                                                 session_id, e
                                             );
+                                            break;
                                         }
                                     }
                                 }
@@ -138,7 +142,11 @@ impl MqttRelayService for MyRelay {
                                             info!("Received Establish from client: {}", client_id);
 
                                             // Create broker connection for this client
-                                            let response_tx_for_spawn = response_tx.clone();
+                                            let Some(response_tx_for_spawn) = response_tx.take()
+                                            else {
+                                                error!("Session {} is established already", session_id);
+                                                continue;
+                                            };
                                             let session_id_for_spawn = session_id.clone();
                                             let (broker_tx, broker_rx) =
                                                 tokio::sync::mpsc::channel::<BrokerControlMessage>(32);
@@ -210,7 +218,7 @@ async fn mqtt_client_loop_simple(
     let mut parser = MqttParser::new(16384, mqtt_version); // 16KB buffer
     let mut sequence_counter = 1u64;
 
-    loop {
+    'outer: loop {
         tokio::select! {
             // Handle control messages from r-proxy
             control_msg = rx.recv() => {
@@ -248,7 +256,15 @@ async fn mqtt_client_loop_simple(
                     }
                     Ok(n) => {
                         debug!("Read {} bytes from broker", n);
-                        while let Ok(Some(packet)) = parser.next_packet() {
+                        loop {
+                            let packet = match parser.next_packet() {
+                                Ok(Some(packet)) => packet,
+                                Ok(None) => break,
+                                Err(e) => {
+                                    error!("Error parsing MQTT packet from broker: {:?}", e);
+                                    break 'outer;
+                                }
+                            };
                             debug!("Received packet from broker: {:?}", packet);
 
                             // Convert MQTT packet to gRPC stream message and forward to r-proxy
@@ -262,7 +278,7 @@ async fn mqtt_client_loop_simple(
 
                                 if let Err(e) = response_tx.send(Ok(stream_msg)).await {
                                     error!("Failed to send message to r-proxy via stream: {}", e);
-                                    break;
+                                    break 'outer;
                                 }
                             }
 
-- 
2.43.0


From 98a9c5e0d4f0ed56e908ee8070510de37a5946e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:31 +0000
Subject: [PATCH 72/88] fix: r-proxy panics when a client identifier is not
 ASCII

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index 235b7ce..853f93c 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -164,8 +164,13 @@ async fn setup_grpc_streaming(
 
     // Add session_id and client_id as gRPC metadata (HTTP/2 headers)
     let metadata = request.metadata_mut();
-    metadata.insert("session-id", session_id.parse().unwrap());
-    metadata.insert("client-id", client_id.parse().unwrap());
+    // They are for the log of s-proxy: what is no header value, as it is not ASCII, is left out
+    if let Ok(value) = session_id.parse() {
+        metadata.insert("session-id", value);
+    }
+    if let Ok(value) = client_id.parse() {
+        metadata.insert("client-id", value);
+    }
 
     let inbound_gstream = client.stream_mqtt_messages(request).await?.into_inner();
 
-- 
2.43.0


From 68539d716becaefb02ec8f2090feeafde9cd790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:59 +0000
Subject: [PATCH 73/88] fix: r-proxy keeps the packets that came with CONNECT
 until more arrive

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 93 ++++++++++++++++------------
 1 file changed, 52 insertions(+), 41 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index 853f93c..5a24d4e 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -282,6 +282,58 @@ async fn start_streaming_loop(
     let sequence_counter: Arc<AtomicU64> = Arc::new(AtomicU64::new(1));
 
     'outer: loop {
+        // Parse all available packets from the buffer: there may be some that came with CONNECT
+        loop {
+            match parser.next_packet() {
+                Ok(Some(packet)) => {
+                    debug!(
+                        "Parsed MQTT packet from client {}: {:?}",
+                        conn.client_id, packet
+                    );
+                    // Convert MQTT packet to gRPC stream message using unified approach
+                    // Note: session_id is sent via gRPC metadata, not in the message
+                    let stream_msg = convert_mqtt_to_stream_message(
+                        &packet,
+                        sequence_counter.fetch_add(1, Ordering::SeqCst),
+                        mqtt_unified_pb::MessageDirection::ClientToBroker,
+                    );
+
+                    if let Some(msg) = stream_msg {
+                        if let Err(e) = conn.grpc_stream_sender.send(msg).await {
+                            error!(
+                                "Failed to send MQTT packet to gRPC stream for client {}: {}",
+                                conn.client_id, e
+                            );
+                            break;
+                        } else {
+                            debug!("MQTT packet forwarded to s-proxy for client {} (session: {}): {:?}",
+                                           conn.client_id, conn.session_id, packet);
+                        }
+                    } else {
+                        error!(
+                            "Failed to convert MQTT packet to stream message for client {}: {:?}",
+                            conn.client_id, packet
+                        );
+                    }
+
+                    // Continue parsing more packets from the same buffer
+                    if parser.buffer_mut().is_empty() {
+                        break; // No more data to parse, exit inner loop
+                    }
+                }
+                Ok(None) => {
+                    // No more complete packets available, exit parsing loop
+                    break;
+                }
+                Err(e) => {
+                    error!(
+                        "Error parsing MQTT packet from client {}: {}",
+                        conn.client_id, e
+                    );
+                    break 'outer;
+                }
+            }
+        }
         tokio::select! {
             // Handle MQTT messages, client facing.
             n = conn.read_h.read_buf(parser.buffer_mut()) => {
@@ -296,47 +348,6 @@ async fn start_streaming_loop(
                         break 'outer;
                     }
                 }
-                // Parse all available packets from the buffer
-                loop {
-                    match parser.next_packet() {
-                        Ok(Some(packet)) => {
-                            debug!("Parsed MQTT packet from client {}: {:?}", conn.client_id, packet);
-                            // Convert MQTT packet to gRPC stream message using unified approach
-                            // Note: session_id is sent via gRPC metadata, not in the message
-                            let stream_msg = convert_mqtt_to_stream_message(
-                                &packet,
-                                sequence_counter.fetch_add(1, Ordering::SeqCst),
-                                mqtt_unified_pb::MessageDirection::ClientToBroker,
-                            );
-
-
-                            if let Some(msg) = stream_msg {
-                                if let Err(e) = conn.grpc_stream_sender.send(msg).await {
-                                    error!("Failed to send MQTT packet to gRPC stream for client {}: {}", conn.client_id, e);
-                                    break;
-                                } else {
-                                    debug!("MQTT packet forwarded to s-proxy for client {} (session: {}): {:?}",
-                                           conn.client_id, conn.session_id, packet);
-                                }
-                            } else {
-                                error!("Failed to convert MQTT packet to stream message for client {}: {:?}", conn.client_id, packet);
-                            }
-
-                            // Continue parsing more packets from the same buffer
-                            if parser.buffer_mut().is_empty() {
-                                break; // No more data to parse, exit inner loop
-                            }
-                        }
-                        Ok(None) => {
-                            // No more complete packets available, exit parsing loop
-                            break;
-                        }
-                        Err(e) => {
-                            error!("Error parsing MQTT packet from client {}: {}", conn.client_id, e);
-                            break 'outer;
-                        }
-                    }
-                }
             }
 
             // Handle gRPC messages, s-proxy facing
-- 
2.43.0


From d9b823ec5677c65c67a90cc651dfd123b714f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:21 +0000
Subject: [PATCH 74/88] fix: r-proxy loses what is on its way when the client
 or the broker ends

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index 5a24d4e..98d1cc5 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -304,7 +304,7 @@ async fn start_streaming_loop(
                                 "Failed to send MQTT packet to gRPC stream for client {}: {}",
                                 conn.client_id, e
                             );
-                            break;
+                            break 'outer;
                         } else {
                             debug!("MQTT packet forwarded to s-proxy for client {} (session: {}): {:?}",
                                            conn.client_id, conn.session_id, packet);
@@ -381,6 +381,27 @@ async fn start_streaming_loop(
         }
     }
 
+    // No more goes to the broker, but what is queued does; s-proxy ends the stream after that.
+    // Until then the client gets what comes for it.
+    drop(conn.grpc_stream_sender);
+    while let Some(Ok(stream_msg)) = inbound_stream.next().await {
+        if let Some(Ok(mqtt_bytes)) =
+            convert_stream_message_to_mqtt_packet(stream_msg).map(|packet| packet.to_bytes())
+        {
+            let _ = conn.write_h.write_all(&mqtt_bytes).await;
+        }
+    }
+
+    // Closing a socket that has unread data resets the connection, and the client may lose what it
+    // has not read yet: wait a while for it to close
+    if conn.write_h.shutdown().await.is_ok() {
+        let mut buf = [0u8; 4096];
+        let _ = tokio::time::timeout(std::time::Duration::from_secs(5), async {
+            while matches!(conn.read_h.read(&mut buf).await, Ok(n) if n > 0) {}
+        })
+        .await;
+    }
+
     info!(
         "Streaming client loop ended for session: {} (client: {})",
         conn.session_id, conn.client_id
-- 
2.43.0


From 7bae874094ff69b56319727fe52d8d237aa2617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:21 +0000
Subject: [PATCH 75/88] fix: the proxies break off when a packet is longer than
 4 MB

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 3 ++-
 mqtt_grpc_duality/src/bin/s-proxy.rs | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index 98d1cc5..e1980a0 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -153,7 +153,8 @@ async fn setup_grpc_streaming(
     Box<dyn std::error::Error + Send + Sync>,
 > {
     // Clone the shared client (cheap Arc clone, shares underlying channel)
-    let mut client = (*grpc_client).clone();
+    // MQTT packets may be longer than the default limit
+    let mut client = (*grpc_client).clone().max_decoding_message_size(usize::MAX);
 
     // Create bidirectional streaming channels for THIS MQTT client
     let (grpc_stream_sender, grpc_stream_receiver) = mpsc::channel(1000);
diff --git a/mqtt_grpc_duality/src/bin/s-proxy.rs b/mqtt_grpc_duality/src/bin/s-proxy.rs
index 739c464..03c56b6 100644
--- a/mqtt_grpc_duality/src/bin/s-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/s-proxy.rs
@@ -331,7 +331,10 @@ async fn main() -> Result<(), Box<dyn std::error::Error>> {
     info!("  MQTT broker address: {}", broker_addr);
 
     Server::builder()
-        .add_service(MqttRelayServiceServer::new(relay))
+        .add_service(
+            // MQTT packets may be longer than the default limit
+            MqttRelayServiceServer::new(relay).max_decoding_message_size(usize::MAX),
+        )
         .serve_with_shutdown(grpc_addr, signal_shutdown())
         .await?;
 
-- 
2.43.0


From 0c6eb2c735a0feaac585161c3924de89e543c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:51 +0000
Subject: [PATCH 76/88] fix: r-proxy refuses a CONNECT that comes in small
 pieces

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index e1980a0..8aaaef2 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -414,9 +414,6 @@ async fn wait_for_mqtt_connect(
     stream: &mut OwnedReadHalf,
     parser: &mut MqttParser,
 ) -> Result<MqttConnectPacket, Status> {
-    // init read hint for locate the vsn
-    let mut read_hint = 7;
-
     loop {
         let n = stream
             .read_buf(parser.buffer_mut())
@@ -426,20 +423,11 @@ async fn wait_for_mqtt_connect(
             return Err(Status::unavailable("Connection closed by the client"));
         }
 
-        if n < read_hint {
-            read_hint -= n;
-            continue;
-        } else {
-            read_hint = 0;
-        }
-
         match parser.set_mqtt_vsn(0) {
             Ok(_) => {}
-            Err(ParseError::More(hint, _)) => {
-                read_hint = hint;
-                continue;
-            }
-            // @TODO: handle other errors properly, like empty buffer
+            // The packet may come in pieces of any size
+            Err(ParseError::More(_, _)) | Err(ParseError::BufferTooShort) => continue,
+            // @TODO: handle other errors properly
             Err(e) => {
                 error!("Failed to set MQTT version: {}", e);
                 return Err(Status::internal("Failed to set MQTT version"));
@@ -461,9 +449,8 @@ async fn wait_for_mqtt_connect(
             Ok(None) => {
                 // Incomplete packet, continue reading
             }
-            Err(ParseError::More(hint, _)) => {
+            Err(ParseError::More(_, _)) => {
                 // Need more data, continue reading
-                read_hint = hint;
             }
             Err(e) => {
                 error!("Error parsing CONNECT packet: {:?}", e);
-- 
2.43.0


From 8d393f8d39611518169a9aed8f6bfe4d8380efcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:07 +0000
Subject: [PATCH 77/88] fix: Python client: keep-alive and retransmissions were
 late or never sent

The engines count time from their creation, the protocols counted it from the
connection, so every tick was early by the time between the two.  And the next
tick was only computed at a tick, not when a request or an answer changed it.
---
 python/package/flowsdk/async_client.py | 44 +++++++++++++++-----------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index 4ede807..9c7006f 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -80,15 +80,17 @@ class FlowMqttProtocol(asyncio.Protocol):
         transport_type: The transport protocol being used
         loop: The asyncio event loop
         on_event_cb: Callback function to handle MQTT events
+        start_time: time.monotonic() when the engine was created, which its ticks count from
     """
     
-    def __init__(self, engine, transport_type: TransportType, loop: asyncio.AbstractEventLoop, on_event_cb: Callable):
+    def __init__(self, engine, transport_type: TransportType, loop: asyncio.AbstractEventLoop, on_event_cb: Callable,
+                 start_time: Optional[float] = None):
         self.engine = engine
         self.transport_type = transport_type
         self.loop = loop
         self.transport: Optional[asyncio.Transport] = None
         self.on_event_cb = on_event_cb
-        self.start_time = time.monotonic()
+        self.start_time = time.monotonic() if start_time is None else start_time
         self._tick_handle: Optional[asyncio.TimerHandle] = None
         self.closed = False
 
@@ -145,18 +147,10 @@ class FlowMqttProtocol(asyncio.Protocol):
         
         self.pump()
         
-        # Schedule next tick
-        if self.transport_type == TransportType.TCP:
-            next_tick_ms = self.engine.next_tick_ms()
-            if next_tick_ms < 0:
-                delay = 0.1
-            else:
-                delay = max(0, (next_tick_ms - now_ms) / 1000.0)
-        else:
+        # Schedule next tick (pump() has done so for TCP)
+        if self.transport_type != TransportType.TCP:
             # Fixed 10ms for TLS/QUIC
-            delay = 0.01
-            
-        self._schedule_tick(delay)
+            self._schedule_tick(0.01)
 
     def pump(self):
         """Pump data between engine and network."""
@@ -169,7 +163,16 @@ class FlowMqttProtocol(asyncio.Protocol):
         if outgoing and self.transport and not self.transport.is_closing():
             self.transport.write(outgoing)
         
-        # 2. Process events
+        # 2. What was sent or received may have moved the next tick
+        if self.transport_type == TransportType.TCP:
+            next_tick_ms = self.engine.next_tick_ms()
+            if next_tick_ms < 0:
+                delay = 0.1
+            else:
+                delay = max(0, next_tick_ms / 1000.0 - (time.monotonic() - self.start_time))
+            self._schedule_tick(delay)
+
+        # 3. Process events
         events = self.engine.take_events()
         for ev in events:
             self.on_event_cb(ev)
@@ -186,14 +189,16 @@ class FlowMqttDatagramProtocol(asyncio.DatagramProtocol):
         engine: The QUIC MQTT engine instance from flowsdk_ffi
         loop: The asyncio event loop
         on_event_cb: Callback function to handle MQTT events
+        start_time: time.monotonic() when the engine was created, which its ticks count from
     """
     
-    def __init__(self, engine, loop: asyncio.AbstractEventLoop, on_event_cb: Callable):
+    def __init__(self, engine, loop: asyncio.AbstractEventLoop, on_event_cb: Callable,
+                 start_time: Optional[float] = None):
         self.engine = engine
         self.loop = loop
         self.transport: Optional[asyncio.DatagramTransport] = None
         self.on_event_cb = on_event_cb
-        self.start_time = time.monotonic()
+        self.start_time = time.monotonic() if start_time is None else start_time
         self._tick_handle: Optional[asyncio.TimerHandle] = None
         self.closed = False
         self.remote_addr = None
@@ -360,6 +365,9 @@ class FlowMqttClient:
             enable_key_log=enable_key_log
         )
         
+        # The engines count their time from their creation
+        self._start_time = time.monotonic()
+
         # Create appropriate engine based on transport type
         if transport == TransportType.TCP:
             self.engine = flowsdk_ffi.MqttEngineFfi.new_with_opts(self.opts)
@@ -402,7 +410,7 @@ class FlowMqttClient:
             if self.transport_type in (TransportType.TCP, TransportType.TLS):
                 # Stream-based connection (TCP or TLS)
                 transport, protocol = await loop.create_connection(
-                    lambda: FlowMqttProtocol(self.engine, self.transport_type, loop, self._on_event),
+                    lambda: FlowMqttProtocol(self.engine, self.transport_type, loop, self._on_event, self._start_time),
                     host, port
                 )
                 self.protocol = protocol
@@ -427,7 +435,7 @@ class FlowMqttClient:
                 
                 # Create UDP socket and protocol
                 transport, protocol = await loop.create_datagram_endpoint(
-                    lambda: FlowMqttDatagramProtocol(self.engine, loop, self._on_event),
+                    lambda: FlowMqttDatagramProtocol(self.engine, loop, self._on_event, self._start_time),
                     remote_addr=addr_info[0][4]
                 )
                 self.protocol = protocol
-- 
2.43.0


From 1fde8f75e8e5f4c33aea5624ff9f7114d6a74361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:55 +0000
Subject: [PATCH 78/88] fix: Python client: connect() succeeds when the broker
 refuses the connection

---
 python/package/flowsdk/async_client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index 9c7006f..cf29a12 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -587,8 +587,13 @@ class FlowMqttClient:
     def _on_event(self, ev):
         """Internal event handler."""
         if ev.is_connected():
+            reason_code = ev[0].reason_code
             if self._connect_future and not self._connect_future.done():
-                self._connect_future.set_result(True)
+                if reason_code == 0:
+                    self._connect_future.set_result(True)
+                else:
+                    self._connect_future.set_exception(
+                        ConnectionError(f"Connection refused by the broker: reason code {reason_code}"))
         
         elif ev.is_published():
             res = ev[0]
-- 
2.43.0


From ec87034d280a7af84feae1f8efc1e65a0c81ca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:12 +0000
Subject: [PATCH 79/88] fix: Python client: the end of a connection is not
 noticed

Calls waited forever when the connection was lost, refused, ended by the broker
or did not answer pings, later ones did not raise RuntimeError, and the socket
of a failed connect() and its timer stayed.
---
 python/package/flowsdk/async_client.py | 130 +++++++++++++++++++++----
 1 file changed, 110 insertions(+), 20 deletions(-)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index cf29a12..2ee2ba8 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -81,15 +81,18 @@ class FlowMqttProtocol(asyncio.Protocol):
         loop: The asyncio event loop
         on_event_cb: Callback function to handle MQTT events
         start_time: time.monotonic() when the engine was created, which its ticks count from
+        on_lost_cb: Callback function for the end of the connection: fn(protocol, exc)
     """
     
     def __init__(self, engine, transport_type: TransportType, loop: asyncio.AbstractEventLoop, on_event_cb: Callable,
-                 start_time: Optional[float] = None):
+                 start_time: Optional[float] = None, on_lost_cb: Optional[Callable] = None):
         self.engine = engine
         self.transport_type = transport_type
         self.loop = loop
+        self.receiving = False
         self.transport: Optional[asyncio.Transport] = None
         self.on_event_cb = on_event_cb
+        self.on_lost_cb = on_lost_cb
         self.start_time = time.monotonic() if start_time is None else start_time
         self._tick_handle: Optional[asyncio.TimerHandle] = None
         self.closed = False
@@ -107,6 +110,9 @@ class FlowMqttProtocol(asyncio.Protocol):
 
     def data_received(self, data: bytes):
         """Called when data is received from the network."""
+        if self.closed:
+            return
+
         # Feed network data to engine
         if self.transport_type == TransportType.TLS:
             self.engine.handle_socket_data(data)
@@ -114,10 +120,31 @@ class FlowMqttProtocol(asyncio.Protocol):
             self.engine.handle_incoming(data)
             
         # Trigger an immediate pump to process potential responses
-        self.pump()
+        self.receiving = True
+        try:
+            self.pump()
+        finally:
+            self.receiving = False
 
     def connection_lost(self, exc: Optional[Exception]):
         """Called when the connection is closed."""
+        if self.closed:
+            return
+
+        self._stop()
+        if self.on_lost_cb:
+            self.on_lost_cb(self, exc)
+
+    def close(self):
+        """Close the connection; it is not reported as lost."""
+        if self.closed:
+            return
+
+        self._stop()
+        if self.transport:
+            self.transport.close()
+
+    def _stop(self):
         self.closed = True
         # Only TCP engine has handle_connection_lost
         if self.transport_type == TransportType.TCP and hasattr(self.engine, 'handle_connection_lost'):
@@ -125,7 +152,7 @@ class FlowMqttProtocol(asyncio.Protocol):
             
         if self._tick_handle:
             self._tick_handle.cancel()
-        
+
     def _schedule_tick(self, delay_sec: float):
         """Schedule the next engine tick."""
         if self.closed:
@@ -154,6 +181,9 @@ class FlowMqttProtocol(asyncio.Protocol):
 
     def pump(self):
         """Pump data between engine and network."""
+        if self.closed:
+            return
+
         # 1. Send outgoing data
         if self.transport_type == TransportType.TLS:
             outgoing = self.engine.take_socket_data()
@@ -190,14 +220,17 @@ class FlowMqttDatagramProtocol(asyncio.DatagramProtocol):
         loop: The asyncio event loop
         on_event_cb: Callback function to handle MQTT events
         start_time: time.monotonic() when the engine was created, which its ticks count from
+        on_lost_cb: Callback function for the end of the connection: fn(protocol, exc)
     """
     
     def __init__(self, engine, loop: asyncio.AbstractEventLoop, on_event_cb: Callable,
-                 start_time: Optional[float] = None):
+                 start_time: Optional[float] = None, on_lost_cb: Optional[Callable] = None):
         self.engine = engine
         self.loop = loop
+        self.receiving = False
         self.transport: Optional[asyncio.DatagramTransport] = None
         self.on_event_cb = on_event_cb
+        self.on_lost_cb = on_lost_cb
         self.start_time = time.monotonic() if start_time is None else start_time
         self._tick_handle: Optional[asyncio.TimerHandle] = None
         self.closed = False
@@ -219,6 +252,9 @@ class FlowMqttDatagramProtocol(asyncio.DatagramProtocol):
 
     def datagram_received(self, data: bytes, addr):
         """Called when a datagram is received."""
+        if self.closed:
+            return
+
         # Feed datagram to QUIC engine
         self.remote_addr = addr
         now_ms = int((time.monotonic() - self.start_time) * 1000)
@@ -233,6 +269,23 @@ class FlowMqttDatagramProtocol(asyncio.DatagramProtocol):
 
     def connection_lost(self, exc: Optional[Exception]):
         """Called when the connection is closed."""
+        if self.closed:
+            return
+
+        self._stop()
+        if self.on_lost_cb:
+            self.on_lost_cb(self, exc)
+
+    def close(self):
+        """Close the connection; it is not reported as lost."""
+        if self.closed:
+            return
+
+        self._stop()
+        if self.transport:
+            self.transport.close()
+
+    def _stop(self):
         self.closed = True
         if self._tick_handle:
             self._tick_handle.cancel()
@@ -267,6 +320,9 @@ class FlowMqttDatagramProtocol(asyncio.DatagramProtocol):
 
     def pump(self):
         """Pump data between engine and network."""
+        if self.closed:
+            return
+
         # 1. Send outgoing datagrams
         datagrams = self.engine.take_outgoing_datagrams()
         if datagrams and self.transport and self.remote_addr:
@@ -384,6 +440,7 @@ class FlowMqttClient:
         self.on_message = on_message
         
         # Futures for pending operations
+        self._connected = False
         self._connect_future: Optional[asyncio.Future] = None
         self._pending_publish: Dict[int, asyncio.Future] = {}
         self._pending_subscribe: Dict[int, asyncio.Future] = {}
@@ -405,15 +462,21 @@ class FlowMqttClient:
         """
         loop = asyncio.get_running_loop()
         self._connect_future = loop.create_future()
+
+        def _stream_protocol():
+            self.protocol = FlowMqttProtocol(
+                self.engine, self.transport_type, loop, self._on_event, self._start_time, self._on_lost)
+            return self.protocol
+
+        def _datagram_protocol():
+            self.protocol = FlowMqttDatagramProtocol(
+                self.engine, loop, self._on_event, self._start_time, self._on_lost)
+            return self.protocol
         
         async def _do_connect():
             if self.transport_type in (TransportType.TCP, TransportType.TLS):
                 # Stream-based connection (TCP or TLS)
-                transport, protocol = await loop.create_connection(
-                    lambda: FlowMqttProtocol(self.engine, self.transport_type, loop, self._on_event, self._start_time),
-                    host, port
-                )
-                self.protocol = protocol
+                await loop.create_connection(_stream_protocol, host, port)
                 
             elif self.transport_type == TransportType.QUIC:
                 # QUIC connection using FlowMqttDatagramProtocol
@@ -435,10 +498,9 @@ class FlowMqttClient:
                 
                 # Create UDP socket and protocol
                 transport, protocol = await loop.create_datagram_endpoint(
-                    lambda: FlowMqttDatagramProtocol(self.engine, loop, self._on_event, self._start_time),
+                    _datagram_protocol,
                     remote_addr=addr_info[0][4]
                 )
-                self.protocol = protocol
                 protocol.remote_addr = addr_info[0][4]
                 
                 # Initiate QUIC connection with required parameters
@@ -451,11 +513,11 @@ class FlowMqttClient:
 
         try:
             await asyncio.wait_for(_do_connect(), timeout=timeout)
-        except Exception:
+        except BaseException:
             # Clean up on failure
-            self.protocol = None
             if self._connect_future and not self._connect_future.done():
                 self._connect_future.cancel()
+            self._end(ConnectionError("MQTT connection failed"))
             raise
 
     async def subscribe(self, topic: str, qos: int = 0) -> int:
@@ -472,7 +534,7 @@ class FlowMqttClient:
         Raises:
             RuntimeError: If not connected
         """
-        if not self.protocol:
+        if not self._connected:
             raise RuntimeError("Not connected")
             
         loop = asyncio.get_running_loop()
@@ -499,7 +561,7 @@ class FlowMqttClient:
         Raises:
             RuntimeError: If not connected
         """
-        if not self.protocol:
+        if not self._connected:
             raise RuntimeError("Not connected")
             
         loop = asyncio.get_running_loop()
@@ -532,7 +594,7 @@ class FlowMqttClient:
         Note:
             QUIC transport does not support the retain parameter and priority.
         """
-        if not self.protocol:
+        if not self._connected:
             raise RuntimeError("Not connected")
             
         loop = asyncio.get_running_loop()
@@ -579,10 +641,27 @@ class FlowMqttClient:
             
         self.engine.disconnect()
         self.protocol.pump()  # Flush DISCONNECT packet
-        
-        if self.protocol.transport:
-            self.protocol.transport.close()
-            self.protocol.closed = True
+        self._end(ConnectionError("MQTT disconnected"))
+
+    def _on_lost(self, protocol, exc: Optional[Exception]):
+        """Internal handler for the end of the network connection."""
+        if protocol is self.protocol:
+            self._end(ConnectionError(f"MQTT connection lost: {exc}" if exc else "MQTT connection lost"))
+
+    def _end(self, error: Exception):
+        """Close the connection and fail everything that waits for an answer on it."""
+        protocol, self.protocol = self.protocol, None
+        self._connected = False
+        if protocol:
+            protocol.close()
+
+        waiting = [self._connect_future] if self._connect_future else []
+        for pending in (self._pending_publish, self._pending_subscribe, self._pending_unsubscribe):
+            waiting.extend(pending.values())
+            pending.clear()
+        for fut in waiting:
+            if not fut.done():
+                fut.set_exception(error)
 
     def _on_event(self, ev):
         """Internal event handler."""
@@ -590,6 +669,7 @@ class FlowMqttClient:
             reason_code = ev[0].reason_code
             if self._connect_future and not self._connect_future.done():
                 if reason_code == 0:
+                    self._connected = True
                     self._connect_future.set_result(True)
                 else:
                     self._connect_future.set_exception(
@@ -628,10 +708,20 @@ class FlowMqttClient:
             if self._connect_future and not self._connect_future.done():
                 self._connect_future.set_exception(ConnectionError(f"MQTT connection error: {ev.message}"))
             logger.error(f"MQTT Error: {ev.message}")
+            if self.protocol and self.protocol.receiving:
+                # Nothing that follows malformed data can be understood
+                self._end(ConnectionError(f"MQTT connection error: {ev.message}"))
 
         elif ev.is_disconnected():
             if self._connect_future and not self._connect_future.done():
                 self._connect_future.set_exception(ConnectionError("MQTT disconnected during connection process"))
+            self._end(ConnectionError(f"MQTT disconnected: reason code {ev.reason_code}"))
+
+        elif ev.is_reconnect_needed():
+            # The broker does not answer any more; without a connection, the engine
+            # reminds of a delay that connect() does not wait for
+            if self._connected:
+                self._end(ConnectionError("MQTT keep-alive timeout"))
 
 
 __all__ = ['FlowMqttClient', 'FlowMqttProtocol','TransportType', 'FlowMqttDatagramProtocol']
-- 
2.43.0


From 8beb88098bab5d70580ef01c035ce99577690773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:12 +0000
Subject: [PATCH 80/88] fix: Python client: over QUIC every event at a tick is
 handled twice

---
 python/package/flowsdk/async_client.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index 2ee2ba8..3c7e424 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -307,10 +307,8 @@ class FlowMqttDatagramProtocol(asyncio.DatagramProtocol):
         
         # Run protocol tick
         now_ms = int((time.monotonic() - self.start_time) * 1000)
-        # QUIC engine handle_tick returns events
-        events = self.engine.handle_tick(now_ms)
-        for ev in events:
-            self.on_event_cb(ev)
+        # The events it returns are those of take_events() in pump()
+        self.engine.handle_tick(now_ms)
         
         self.pump()
         
-- 
2.43.0


From 51132a3f5a3fe3be93582b3e0b21f1a048b30de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:12 +0000
Subject: [PATCH 81/88] fix: Python client: disconnect() sends no DISCONNECT
 over TLS and QUIC

---
 python/package/flowsdk/async_client.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index 3c7e424..f134ef2 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -169,9 +169,7 @@ class FlowMqttProtocol(asyncio.Protocol):
             return
         
         # Run protocol tick
-        now_ms = int((time.monotonic() - self.start_time) * 1000)
-        self.engine.handle_tick(now_ms)
-        
+        self.tick()
         self.pump()
         
         # Schedule next tick (pump() has done so for TCP)
@@ -179,6 +177,11 @@ class FlowMqttProtocol(asyncio.Protocol):
             # Fixed 10ms for TLS/QUIC
             self._schedule_tick(0.01)
 
+    def tick(self):
+        """Let the engine do what is due; pump() delivers the events."""
+        now_ms = int((time.monotonic() - self.start_time) * 1000)
+        self.engine.handle_tick(now_ms)
+
     def pump(self):
         """Pump data between engine and network."""
         if self.closed:
@@ -306,16 +309,18 @@ class FlowMqttDatagramProtocol(asyncio.DatagramProtocol):
             return
         
         # Run protocol tick
-        now_ms = int((time.monotonic() - self.start_time) * 1000)
-        # The events it returns are those of take_events() in pump()
-        self.engine.handle_tick(now_ms)
-        
+        self.tick()
         self.pump()
         
         # Fixed 10ms interval for QUIC
         delay = 0.01
         self._schedule_tick(delay)
 
+    def tick(self):
+        """Let the engine do what is due; pump() delivers the events."""
+        now_ms = int((time.monotonic() - self.start_time) * 1000)
+        self.engine.handle_tick(now_ms)
+
     def pump(self):
         """Pump data between engine and network."""
         if self.closed:
@@ -637,7 +642,10 @@ class FlowMqttClient:
         if not self.protocol:
             return
             
+        # The TLS and QUIC engines only take in and pass on data at a tick
+        self.protocol.tick()
         self.engine.disconnect()
+        self.protocol.tick()
         self.protocol.pump()  # Flush DISCONNECT packet
         self._end(ConnectionError("MQTT disconnected"))
 
-- 
2.43.0


From d386fced8cf405e640253c78d3bde24a683805de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:13 +0000
Subject: [PATCH 82/88] fix: Python client: an exception in on_message ends the
 connection

The events after the message were lost with it.
---
 python/package/flowsdk/async_client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index f134ef2..2d80835 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -708,7 +708,11 @@ class FlowMqttClient:
         elif ev.is_message_received():
             msg = ev[0]
             if self.on_message:
-                self.on_message(msg.topic, msg.payload, msg.qos)
+                try:
+                    self.on_message(msg.topic, msg.payload, msg.qos)
+                except Exception:
+                    # The events that follow this one are not its business
+                    logger.exception("Error in on_message callback")
             
         elif ev.is_error():
             if self._connect_future and not self._connect_future.done():
-- 
2.43.0


From fa531ed6c57e22fe1a2baf82ca796329a9b3102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:13 +0000
Subject: [PATCH 83/88] fix: Python client: a request that the engine refuses
 is awaited forever

---
 python/package/flowsdk/async_client.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index 2d80835..e78cbcf 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -340,6 +340,18 @@ class FlowMqttDatagramProtocol(asyncio.DatagramProtocol):
 
 
 
+def _check_qos(qos: int):
+    if qos not in (0, 1, 2):
+        raise ValueError(f"Invalid QoS: {qos}")
+
+
+def _check_pid(pid: int) -> int:
+    """The engines return -1 for a request they do not accept."""
+    if pid < 0:
+        raise RuntimeError("The MQTT engine does not accept the request")
+    return pid
+
+
 class FlowMqttClient:
     """
     High-level async MQTT client supporting multiple transports (TCP, QUIC).
@@ -536,12 +548,14 @@ class FlowMqttClient:
             
         Raises:
             RuntimeError: If not connected
+            ValueError: If the QoS is not 0, 1 or 2
         """
         if not self._connected:
             raise RuntimeError("Not connected")
             
         loop = asyncio.get_running_loop()
-        pid = self.engine.subscribe(topic, qos)
+        _check_qos(qos)
+        pid = _check_pid(self.engine.subscribe(topic, qos))
         fut = loop.create_future()
         self._pending_subscribe[pid] = fut
         
@@ -568,7 +582,7 @@ class FlowMqttClient:
             raise RuntimeError("Not connected")
             
         loop = asyncio.get_running_loop()
-        pid = self.engine.unsubscribe(topic)
+        pid = _check_pid(self.engine.unsubscribe(topic))
         fut = loop.create_future()
         self._pending_unsubscribe[pid] = fut
         
@@ -593,6 +607,7 @@ class FlowMqttClient:
             
         Raises:
             RuntimeError: If not connected
+            ValueError: If the QoS is not 0, 1 or 2
             
         Note:
             QUIC transport does not support the retain parameter and priority.
@@ -601,6 +616,7 @@ class FlowMqttClient:
             raise RuntimeError("Not connected")
             
         loop = asyncio.get_running_loop()
+        _check_qos(qos)
         
         # Handle different engine publish signatures
         if self.transport_type == TransportType.TCP:
@@ -610,6 +626,7 @@ class FlowMqttClient:
         else:
             # TLS and QUIC engines take 3 args: topic, payload, qos
             pid = self.engine.publish(topic, payload, qos)
+        _check_pid(pid)
         
         if qos > 0:
             fut = loop.create_future()
-- 
2.43.0


From e0711f7d9ca8f3c4ec2f76ddf4d0afe7a667ddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:13 +0000
Subject: [PATCH 84/88] fix: Python client: a second connection over TLS never
 works

---
 python/package/flowsdk/async_client.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index e78cbcf..5912d0b 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -445,7 +445,7 @@ class FlowMqttClient:
         elif transport == TransportType.TLS:
             if not server_name:
                 raise ValueError("server_name (SNI) is required for TLS transport")
-            self.engine = flowsdk_ffi.TlsMqttEngineFfi(self.opts, self.tls_opts, server_name)
+            self._new_tls_engine()
         elif transport == TransportType.QUIC:
             self.engine = flowsdk_ffi.QuicMqttEngineFfi(self.opts)
         else:
@@ -461,6 +461,10 @@ class FlowMqttClient:
         self._pending_subscribe: Dict[int, asyncio.Future] = {}
         self._pending_unsubscribe: Dict[int, asyncio.Future] = {}
 
+    def _new_tls_engine(self):
+        self._start_time = time.monotonic()
+        self.engine = flowsdk_ffi.TlsMqttEngineFfi(self.opts, self.tls_opts, self.server_name)
+
     async def connect(self, host: str, port: int, server_name: Optional[str] = None, timeout: float = 10.0):
         """
         Connect to MQTT broker.
@@ -478,6 +482,10 @@ class FlowMqttClient:
         loop = asyncio.get_running_loop()
         self._connect_future = loop.create_future()
 
+        if self.transport_type == TransportType.TLS:
+            # A TLS session is for one connection
+            self._new_tls_engine()
+
         def _stream_protocol():
             self.protocol = FlowMqttProtocol(
                 self.engine, self.transport_type, loop, self._on_event, self._start_time, self._on_lost)
-- 
2.43.0


From fb5b60bae9f0e1183cbf2f8c1131f8447404a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:21 +0000
Subject: [PATCH 85/88] fix: engine: half a packet of a lost connection is
 taken for the start of the next one's

---
 src/mqtt_client/engine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 795f36e..a4d2b63 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -590,6 +590,8 @@ impl MqttEngine {
         }
         self.connect_started_at = Some(Instant::now());
         self.connect_sequence = self.inflight_queue.next_sequence();
+        // What was cut off or malformed at the end of an earlier connection is over.
+        self.parser = MqttParser::new(self.options.parser_buffer_size, self.options.mqtt_version);
         // A PINGREQ of an earlier connection will never be answered on this one.
         self.ping_sent_at = None;
         // Nor do the logical channels of an earlier connection exist any more.
-- 
2.43.0


From 80b0e2073dba7324a257b5b5a3559e69de72aa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:02 +0000
Subject: [PATCH 86/88] fix: Python client: publish() ignores retain over TCP
 and TLS

---
 flowsdk_ffi/src/engine.rs              | 35 +++++++++++++++++++++++++-
 python/package/flowsdk/async_client.py |  7 +++---
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index b72d2fe..23245d6 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -132,10 +132,22 @@ impl MqttEngineFFI {
     }
 
     pub fn publish(&self, topic: String, payload: Vec<u8>, qos: u8, priority: Option<u8>) -> i32 {
+        self.publish_with_retain(topic, payload, qos, priority, false)
+    }
+
+    pub fn publish_with_retain(
+        &self,
+        topic: String,
+        payload: Vec<u8>,
+        qos: u8,
+        priority: Option<u8>,
+        retain: bool,
+    ) -> i32 {
         let mut builder = PublishCommand::builder()
             .topic(topic)
             .payload(payload)
-            .qos(qos);
+            .qos(qos)
+            .retain(retain);
 
         if let Some(p) = priority {
             builder = builder.priority(p);
@@ -396,10 +408,21 @@ impl TlsMqttEngineFFI {
     }
 
     pub fn publish(&self, topic: String, payload: Vec<u8>, qos: u8) -> i32 {
+        self.publish_with_retain(topic, payload, qos, false)
+    }
+
+    pub fn publish_with_retain(
+        &self,
+        topic: String,
+        payload: Vec<u8>,
+        qos: u8,
+        retain: bool,
+    ) -> i32 {
         let command = PublishCommand::builder()
             .topic(topic)
             .payload(payload)
             .qos(qos)
+            .retain(retain)
             .build()
             .unwrap();
         match self.engine.lock().unwrap().publish(command) {
@@ -474,6 +497,16 @@ impl TlsMqttEngineFFI {
         -1
     }
 
+    pub fn publish_with_retain(
+        &self,
+        _topic: String,
+        _payload: Vec<u8>,
+        _qos: u8,
+        _retain: bool,
+    ) -> i32 {
+        -1
+    }
+
     pub fn subscribe(&self, _topic_filter: String, _qos: u8) -> i32 {
         -1
     }
diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index 5912d0b..9da4300 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -628,11 +628,12 @@ class FlowMqttClient:
         
         # Handle different engine publish signatures
         if self.transport_type == TransportType.TCP:
-            # TCP engine takes 4 args: topic, payload, qos, priority
             # Note: priority is currently passed as None as it's not exposed in high-level API yet
-            pid = self.engine.publish(topic, payload, qos, None)
+            pid = self.engine.publish_with_retain(topic, payload, qos, None, bool(retain))
+        elif self.transport_type == TransportType.TLS:
+            pid = self.engine.publish_with_retain(topic, payload, qos, bool(retain))
         else:
-            # TLS and QUIC engines take 3 args: topic, payload, qos
+            # The QUIC engine takes 3 args: topic, payload, qos
             pid = self.engine.publish(topic, payload, qos)
         _check_pid(pid)
         
-- 
2.43.0


From 235a9368c964de0efd0e26962fb2c19e92402e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:06 +0000
Subject: [PATCH 87/88] fix: QUIC client: unread events stop the client and its
 commands for good

---
 src/mqtt_client/tokio_quic_client.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/tokio_quic_client.rs b/src/mqtt_client/tokio_quic_client.rs
index e0d054b..effd33a 100644
--- a/src/mqtt_client/tokio_quic_client.rs
+++ b/src/mqtt_client/tokio_quic_client.rs
@@ -16,7 +16,7 @@ type CommandResult<T> = Result<T, CommandError>;
 /// Ideally you prefer to use tokio_async_client instead.
 pub struct TokioQuicMqttClient {
     command_tx: mpsc::Sender<QuicCommand>,
-    event_rx: mpsc::Receiver<MqttEvent>,
+    event_rx: mpsc::UnboundedReceiver<MqttEvent>,
 }
 
 pub enum QuicCommand {
@@ -52,7 +52,9 @@ impl TokioQuicMqttClient {
     /// Create a new TokioQuicMqttClient.
     pub fn new(options: MqttClientOptions) -> Result<Self, Box<dyn std::error::Error>> {
         let (command_tx, command_rx) = mpsc::channel(100);
-        let (event_tx, event_rx) = mpsc::channel(100);
+        // Unbounded: an application that does not read its events must not stop
+        // the loop that also answers its commands and drives the connection.
+        let (event_tx, event_rx) = mpsc::unbounded_channel();
 
         let engine = QuicMqttEngine::new(options)?;
 
@@ -167,7 +169,7 @@ impl TokioQuicMqttClient {
 async fn run_engine_loop(
     mut engine: QuicMqttEngine,
     mut command_rx: mpsc::Receiver<QuicCommand>,
-    event_tx: mpsc::Sender<MqttEvent>,
+    event_tx: mpsc::UnboundedSender<MqttEvent>,
 ) -> CommandResult<()> {
     let mut socket: Option<UdpSocket> = None;
     let mut interval = tokio::time::interval(Duration::from_millis(10));
@@ -237,7 +239,7 @@ async fn run_engine_loop(
             _ = interval.tick() => {
                 let events = engine.handle_tick(Instant::now());
                 for event in events {
-                    if (event_tx.send(event).await).is_err() {
+                    if event_tx.send(event).is_err() {
                         return Ok(());
                     }
                 }
-- 
2.43.0


From 5520c6cf5600889b4f89e41a9296ae58d6d03206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:06 +0000
Subject: [PATCH 88/88] fix: QUIC client: dropping the client ends neither its
 task nor the connection

---
 src/mqtt_client/tokio_quic_client.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tokio_quic_client.rs b/src/mqtt_client/tokio_quic_client.rs
index effd33a..e2fb69b 100644
--- a/src/mqtt_client/tokio_quic_client.rs
+++ b/src/mqtt_client/tokio_quic_client.rs
@@ -179,7 +179,19 @@ async fn run_engine_loop(
 
     loop {
         tokio::select! {
-            Some(cmd) = command_rx.recv() => {
+            cmd = command_rx.recv() => {
+                let Some(cmd) = cmd else {
+                    // The client was dropped: end the connection and the loop.
+                    let _ = engine.disconnect_and_close(0, b"");
+                    let _ = engine.handle_tick(Instant::now());
+                    if let Some(ref s) = socket {
+                        outgoing_buffer.extend(engine.take_outgoing_datagrams());
+                        for (dest, data) in outgoing_buffer.drain(..) {
+                            let _ = s.try_send_to(&data, dest);
+                        }
+                    }
+                    return Ok(());
+                };
                 match cmd {
                     QuicCommand::Connect { server_addr, server_name, crypto, local_bind_addr, resp } => {
                         let res = (|| -> CommandResult<()> {
-- 
2.43.0

