From 515fbdc6cde5cac973561d0259f317933e8a3f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 01/11] fix: write CONNECT flags relative to the packet start

Connect::write patched buffer[flags_index] counted from the start of the
buffer, so encoding a CONNECT behind other data corrupted that data (or the
CONNECT itself) and left the flags byte zero.
---
 src/connect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connect.rs b/src/connect.rs
index 0cfe773..de8597f 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -96,13 +96,14 @@ impl Connect {
         buffer: &mut BytesMut,
     ) -> Result<usize, Error> {
         let len = self.len(will, l);
+        let start = buffer.len();
 
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
         write_mqtt_string(buffer, &mqtt_string_new("MQTT"))?;
 
         buffer.put_u8(0x05);
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = start + 1 + count + 2 + 4 + 1;
 
         let mut connect_flags = 0;
         if self.clean_start {
-- 
2.43.0


From 162f675fdb36258dedcc1eae06eb42098ebd869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 02/11] fix: count each subscription identifier once

The property identifier byte is already counted when it is read; counting it
again ended the property section early, so a PUBLISH with three or more
subscription identifiers leaked the last ones into its payload.
---
 src/publish.rs   | 2 +-
 src/subscribe.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/publish.rs b/src/publish.rs
index 1536467..2576c96 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -231,7 +231,7 @@ impl PublishProperties {
                 }
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, id) = length(bytes.iter())?;
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
                 }
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 7c25bb5..2765996 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -241,8 +241,7 @@ impl SubscribeProperties {
             match property(prop)? {
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, sub_id) = length(bytes.iter())?;
-                    // TODO: Validate 1 +. Tests are working either way
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     id = Some(sub_id);
                 }
-- 
2.43.0


From 94ce1826fe5c6459ddb0360682be4366401ecd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 03/11] fix: encode and decode DISCONNECT without properties

A DISCONNECT with a reason code and no properties was written with a property
length byte its remaining length did not count, which desynchronised the
stream, and could not be read back (remaining length 1 is legal). One with
empty properties lost its reason code because its length collided with the
value used to mark a normal disconnection.
---
 src/disconnect.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 7931da4..85bb279 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -260,7 +260,7 @@ impl Disconnect {
         if self.reason_code == DisconnectReasonCode::NormalDisconnection
             && self.properties.is_none()
         {
-            return 2; // Packet type + 0x00
+            return 0; // Reason code and properties are omitted
         }
 
         let mut length = 0;
@@ -281,10 +281,6 @@ impl Disconnect {
     #[must_use]
     pub fn size(&self) -> usize {
         let len = self.len();
-        if len == 2 {
-            return len;
-        }
-
         let remaining_len_size = len_len(len);
 
         1 + remaining_len_size + len
@@ -310,6 +306,11 @@ impl Disconnect {
 
         let reason_code = read_u8(&mut bytes)?;
 
+        // No property length if remaining length < 2
+        if fixed_header.remaining_len < 2 {
+            return Ok(Self::new(reason_code.try_into()?));
+        }
+
         let disconnect = Self {
             reason_code: reason_code.try_into()?,
             properties: DisconnectProperties::extract(&mut bytes)?,
@@ -323,19 +324,15 @@ impl Disconnect {
 
         let length = self.len();
 
-        if length == 2 {
-            buffer.put_u8(0x00);
-            return Ok(length);
-        }
-
         let len_len = write_remaining_length(buffer, length)?;
 
-        buffer.put_u8(self.reason_code as u8);
+        if length > 0 {
+            buffer.put_u8(self.reason_code as u8);
+        }
 
+        // Without properties the property length is omitted as well
         if let Some(properties) = &self.properties {
             properties.write(buffer)?;
-        } else {
-            write_remaining_length(buffer, 0)?;
         }
 
         Ok(1 + len_len + length)
-- 
2.43.0


From 32f196f6a3dc7856c7c2e4012e759bc5becfd2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 04/11] fix: do not ask for more bytes when a complete packet
 is malformed

A complete frame whose property length or subscription identifier is cut off
was consumed and then reported as InsufficientBytes, which tells the caller to
wait for more of a packet that is already gone.
---
 src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7c80fe6..1d77240 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -428,15 +428,25 @@ pub(crate) fn parse_fixed_header(mut stream: Iter<u8>) -> Result<FixedHeader, Er
     }
 
     let byte1 = stream.next().unwrap();
-    let (len_len, len) = length(stream)?;
+    let (len_len, len) = variable_byte_integer(stream)?;
 
     Ok(FixedHeader::new(*byte1, len_len, len))
 }
 
+/// Parses variable byte integer inside a packet, used for property lengths and
+/// subscription identifiers. The packet is already framed, so running out of
+/// bytes here means it is malformed and not that more bytes should be awaited
+fn length(stream: Iter<u8>) -> Result<(usize, usize), Error> {
+    variable_byte_integer(stream).map_err(|e| match e {
+        Error::InsufficientBytes(_) => Error::MalformedPacket,
+        e => e,
+    })
+}
+
 /// Parses variable byte integer in the stream and returns the length
 /// and number of bytes that make it. Used for remaining length calculation
 /// as well as for calculating property lengths
-fn length(stream: Iter<u8>) -> Result<(usize, usize), Error> {
+fn variable_byte_integer(stream: Iter<u8>) -> Result<(usize, usize), Error> {
     let mut len: usize = 0;
     let mut len_len = 0;
     let mut done = false;
-- 
2.43.0


From fbbedf3678db391a1b59f982b7d496d1d207eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 05/11] fix: return an error for CONNACK codes MQTT 5 does not
 have

Writing a ConnAck with RefusedProtocolVersion, BadClientId or
ServiceUnavailable panicked.
---
 src/connack.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/connack.rs b/src/connack.rs
index f9ace21..64d446a 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -90,11 +90,12 @@ impl ConnAck {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = Self::len(self);
+        let code = connect_code(self.code)?;
         buffer.put_u8(0x20);
 
         let count = write_remaining_length(buffer, len)?;
         buffer.put_u8(u8::from(self.session_present));
-        buffer.put_u8(connect_code(self.code));
+        buffer.put_u8(code);
 
         if let Some(p) = &self.properties {
             p.write(buffer)?;
@@ -466,8 +467,8 @@ fn connect_return(num: u8) -> Result<ConnectReturnCode, Error> {
     Ok(code)
 }
 
-fn connect_code(return_code: ConnectReturnCode) -> u8 {
-    match return_code {
+fn connect_code(return_code: ConnectReturnCode) -> Result<u8, Error> {
+    let code = match return_code {
         ConnectReturnCode::Success => 0,
         ConnectReturnCode::UnspecifiedError => 128,
         ConnectReturnCode::MalformedPacket => 129,
@@ -490,8 +491,15 @@ fn connect_code(return_code: ConnectReturnCode) -> u8 {
         ConnectReturnCode::UseAnotherServer => 156,
         ConnectReturnCode::ServerMoved => 157,
         ConnectReturnCode::ConnectionRateExceeded => 159,
-        _ => unreachable!(),
-    }
+        // Return codes of MQTT v3.1.1, which v5 can't carry
+        ConnectReturnCode::RefusedProtocolVersion => {
+            return Err(Error::InvalidConnectReturnCode(1))
+        }
+        ConnectReturnCode::BadClientId => return Err(Error::InvalidConnectReturnCode(2)),
+        ConnectReturnCode::ServiceUnavailable => return Err(Error::InvalidConnectReturnCode(3)),
+    };
+
+    Ok(code)
 }
 
 #[cfg(test)]
-- 
2.43.0


From fd07633eac4a6b26a2a14dd1a8411bde78b5816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 06/11] fix: leave no partial packet in the buffer when a write
 fails

A failed Packet::write left the bytes written so far, so the next packet
written to the same buffer was read as the rest of the failed one.
---
 src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1d77240..bde1d12 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -215,8 +215,11 @@ impl Packet {
         Ok(packet)
     }
 
+    /// Appends the packet to `write` and returns the number of bytes written.
+    /// On error `write` is left as it was
     pub fn write(&self, write: &mut BytesMut) -> Result<usize, Error> {
-        match self {
+        let start = write.len();
+        let result = match self {
             Self::Publish(publish) => publish.write(write),
             Self::Subscribe(subscription) => subscription.write(write),
             Self::Unsubscribe(unsubscribe) => unsubscribe.write(write),
@@ -231,7 +234,14 @@ impl Packet {
             Self::PingReq(_) => PingReq::write(write),
             Self::PingResp(_) => PingResp::write(write),
             Self::Disconnect(disconnect) => disconnect.write(write),
+        };
+
+        // Don't leave a partially written packet in the stream
+        if result.is_err() {
+            write.truncate(start);
         }
+
+        result
     }
 }
 
-- 
2.43.0


From b165da816e86f5774484e1ddda07743eddce6006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 07/11] fix: reject properties that cross the property length

The last property of a section could extend past the declared property
length; its value was then taken from the payload.
---
 src/connack.rs     |  5 +++++
 src/connect.rs     | 10 ++++++++++
 src/disconnect.rs  |  5 +++++
 src/puback.rs      |  5 +++++
 src/pubcomp.rs     |  5 +++++
 src/publish.rs     |  5 +++++
 src/pubrec.rs      |  5 +++++
 src/pubrel.rs      |  5 +++++
 src/suback.rs      |  5 +++++
 src/subscribe.rs   |  5 +++++
 src/unsuback.rs    |  5 +++++
 src/unsubscribe.rs |  5 +++++
 12 files changed, 65 insertions(+)

diff --git a/src/connack.rs b/src/connack.rs
index 64d446a..74167e0 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -321,6 +321,11 @@ impl ConnAckProperties {
             }
         }
 
+        // A property must not cross the promised property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnAckProperties {
             session_expiry_interval,
             receive_max,
diff --git a/src/connect.rs b/src/connect.rs
index de8597f..c13a2f6 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -239,6 +239,11 @@ impl ConnectProperties {
             }
         }
 
+        // A property must not cross the promised property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnectProperties {
             session_expiry_interval,
             receive_maximum,
@@ -533,6 +538,11 @@ impl LastWillProperties {
             }
         }
 
+        // A property must not cross the promised property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(LastWillProperties {
             delay_interval,
             payload_format_indicator,
diff --git a/src/disconnect.rs b/src/disconnect.rs
index 85bb279..88c74f8 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -208,6 +208,11 @@ impl DisconnectProperties {
             }
         }
 
+        // A property must not cross the promised property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         let properties = Self {
             session_expiry_interval,
             reason_string,
diff --git a/src/puback.rs b/src/puback.rs
index bb7902f..61dd385 100644
--- a/src/puback.rs
+++ b/src/puback.rs
@@ -179,6 +179,11 @@ impl PubAckProperties {
             }
         }
 
+        // A property must not cross the promised property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/pubcomp.rs b/src/pubcomp.rs
index d3cc6f1..312120e 100644
--- a/src/pubcomp.rs
+++ b/src/pubcomp.rs
@@ -172,6 +172,11 @@ impl PubCompProperties {
             }
         }
 
+        // A property must not cross the promised property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubCompProperties {
             reason_string,
             user_properties,
diff --git a/src/publish.rs b/src/publish.rs
index 2576c96..0a24a85 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -244,6 +244,11 @@ impl PublishProperties {
             }
         }
 
+        // A property must not cross the promised property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PublishProperties {
             payload_format_indicator,
             message_expiry_interval,
diff --git a/src/pubrec.rs b/src/pubrec.rs
index 888a5af..a8ffa69 100644
--- a/src/pubrec.rs
+++ b/src/pubrec.rs
@@ -174,6 +174,11 @@ impl PubRecProperties {
             }
         }
 
+        // A property must not cross the promised property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRecProperties {
             reason_string,
             user_properties,
diff --git a/src/pubrel.rs b/src/pubrel.rs
index 70c4065..1d5d65d 100644
--- a/src/pubrel.rs
+++ b/src/pubrel.rs
@@ -173,6 +173,11 @@ impl PubRelProperties {
             }
         }
 
+        // A property must not cross the promised property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRelProperties {
             reason_string,
             user_properties,
diff --git a/src/suback.rs b/src/suback.rs
index 8319041..892916b 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -151,6 +151,11 @@ impl SubAckProperties {
             }
         }
 
+        // A property must not cross the promised property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 2765996..6b18691 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -255,6 +255,11 @@ impl SubscribeProperties {
             }
         }
 
+        // A property must not cross the promised property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubscribeProperties {
             id,
             user_properties,
diff --git a/src/unsuback.rs b/src/unsuback.rs
index 76a7bbc..448ef0a 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -148,6 +148,11 @@ impl UnsubAckProperties {
             }
         }
 
+        // A property must not cross the promised property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index cef2250..6423e79 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -137,6 +137,11 @@ impl UnsubscribeProperties {
             }
         }
 
+        // A property must not cross the promised property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubscribeProperties { user_properties }))
     }
 
-- 
2.43.0


From fd6a519524242e1f16e1684c24cf48bd1d07e528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 08/11] fix: reject packets with bytes after their last field

Acknowledgements, CONNECT, CONNACK, DISCONNECT and pings silently dropped
whatever followed their content inside the remaining length, which MQTT 5
treats as a malformed packet.
---
 src/connack.rs    |  7 ++++---
 src/connect.rs    |  7 ++++---
 src/disconnect.rs |  3 ++-
 src/lib.rs        | 13 +++++++++++--
 src/puback.rs     |  3 ++-
 src/pubcomp.rs    |  3 ++-
 src/pubrec.rs     |  3 ++-
 src/pubrel.rs     |  3 ++-
 8 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/connack.rs b/src/connack.rs
index 74167e0..94650f8 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -1,9 +1,9 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_bytes, read_mqtt_string, read_u16, read_u32, read_u8,
-    write_mqtt_bytes, write_mqtt_string, write_remaining_length, Debug, Error, FixedHeader,
-    PropertyType,
+    len_len, length, property, read_end, read_mqtt_bytes, read_mqtt_string, read_u16, read_u32,
+    read_u8, write_mqtt_bytes, write_mqtt_string, write_remaining_length, Debug, Error,
+    FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
 
@@ -76,6 +76,7 @@ impl ConnAck {
         let flags = read_u8(&mut bytes)?;
         let return_code = read_u8(&mut bytes)?;
         let properties = ConnAckProperties::read(&mut bytes)?;
+        read_end(&bytes)?;
 
         let session_present = (flags & 0x01) == 1;
         let code = connect_return(return_code)?;
diff --git a/src/connect.rs b/src/connect.rs
index c13a2f6..03ff4f4 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -1,9 +1,9 @@
 use crate::{mqtt_string_eq, mqtt_string_new, MqttString};
 
 use super::{
-    len_len, length, property, qos, read_mqtt_bytes, read_mqtt_string, read_u16, read_u32, read_u8,
-    write_mqtt_bytes, write_mqtt_string, write_remaining_length, BufMut, BytesMut, Debug, Error,
-    FixedHeader, PropertyType, QoS,
+    len_len, length, property, qos, read_end, read_mqtt_bytes, read_mqtt_string, read_u16,
+    read_u32, read_u8, write_mqtt_bytes, write_mqtt_string, write_remaining_length, BufMut,
+    BytesMut, Debug, Error, FixedHeader, PropertyType, QoS,
 };
 use bytes::{Buf, Bytes};
 
@@ -48,6 +48,7 @@ impl Connect {
         let client_id = read_mqtt_string(&mut bytes)?;
         let will = LastWill::read(connect_flags, &mut bytes)?;
         let login = Login::read(connect_flags, &mut bytes)?;
+        read_end(&bytes)?;
 
         let connect = Connect {
             keep_alive,
diff --git a/src/disconnect.rs b/src/disconnect.rs
index 88c74f8..5cf4883 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -5,7 +5,7 @@ use bytes::{BufMut, Bytes, BytesMut};
 use crate::MqttString;
 
 use super::{
-    len_len, length, read_mqtt_string, read_u32, read_u8, write_mqtt_string,
+    len_len, length, read_end, read_mqtt_string, read_u32, read_u8, write_mqtt_string,
     write_remaining_length, Buf, Debug, Error, FixedHeader, PacketType,
 };
 
@@ -320,6 +320,7 @@ impl Disconnect {
             reason_code: reason_code.try_into()?,
             properties: DisconnectProperties::extract(&mut bytes)?,
         };
+        read_end(&bytes)?;
 
         Ok(disconnect)
     }
diff --git a/src/lib.rs b/src/lib.rs
index bde1d12..2c147f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -204,8 +204,7 @@ impl Packet {
                 let unsuback = UnsubAck::read(fixed_header, packet)?;
                 Packet::UnsubAck(unsuback)
             }
-            PacketType::PingReq => Packet::PingReq(PingReq),
-            PacketType::PingResp => Packet::PingResp(PingResp),
+            PacketType::PingReq | PacketType::PingResp => return Err(Error::MalformedPacket),
             PacketType::Disconnect => {
                 let disconnect = Disconnect::read(fixed_header, packet)?;
                 Packet::Disconnect(disconnect)
@@ -615,6 +614,16 @@ fn read_u16(stream: &mut Bytes) -> Result<u16, Error> {
     Ok(stream.get_u16())
 }
 
+/// Checks that nothing is left in a packet after its last field
+#[inline]
+fn read_end(stream: &Bytes) -> Result<(), Error> {
+    if !stream.is_empty() {
+        return Err(Error::MalformedPacket);
+    }
+
+    Ok(())
+}
+
 #[inline]
 fn read_u8(stream: &mut Bytes) -> Result<u8, Error> {
     if stream.is_empty() {
diff --git a/src/puback.rs b/src/puback.rs
index 61dd385..630df2b 100644
--- a/src/puback.rs
+++ b/src/puback.rs
@@ -1,7 +1,7 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
+    len_len, length, property, read_end, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
     write_remaining_length, Debug, Error, FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
@@ -94,6 +94,7 @@ impl PubAck {
         }
 
         let properties = PubAckProperties::read(&mut bytes)?;
+        read_end(&bytes)?;
         let puback = PubAck {
             pkid,
             reason: reason(ack_reason)?,
diff --git a/src/pubcomp.rs b/src/pubcomp.rs
index 312120e..47880c4 100644
--- a/src/pubcomp.rs
+++ b/src/pubcomp.rs
@@ -1,7 +1,7 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
+    len_len, length, property, read_end, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
     write_remaining_length, Debug, Error, FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
@@ -87,6 +87,7 @@ impl PubComp {
         }
 
         let properties = PubCompProperties::read(&mut bytes)?;
+        read_end(&bytes)?;
         let puback = PubComp {
             pkid,
             reason: reason(ack_reason)?,
diff --git a/src/pubrec.rs b/src/pubrec.rs
index a8ffa69..b815bbc 100644
--- a/src/pubrec.rs
+++ b/src/pubrec.rs
@@ -1,7 +1,7 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
+    len_len, length, property, read_end, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
     write_remaining_length, Debug, Error, FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
@@ -90,6 +90,7 @@ impl PubRec {
         }
 
         let properties = PubRecProperties::read(&mut bytes)?;
+        read_end(&bytes)?;
         let puback = PubRec {
             pkid,
             reason: reason(ack_reason)?,
diff --git a/src/pubrel.rs b/src/pubrel.rs
index 1d5d65d..39b0286 100644
--- a/src/pubrel.rs
+++ b/src/pubrel.rs
@@ -1,7 +1,7 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
+    len_len, length, property, read_end, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
     write_remaining_length, Debug, Error, FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
@@ -88,6 +88,7 @@ impl PubRel {
         }
 
         let properties = PubRelProperties::read(&mut bytes)?;
+        read_end(&bytes)?;
         let puback = PubRel {
             pkid,
             reason: reason(ack_reason)?,
-- 
2.43.0


From 76df9fc020876a1f72f484d85900826a70aabdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 09/11] fix: reject packets with wrong reserved flags in the
 fixed header

MQTT-2.1.3-1 makes any other value a malformed packet. Only DISCONNECT was
checked.
---
 src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 2c147f2..5d27d09 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -149,6 +149,7 @@ impl Packet {
         // Test with a stream with exactly the size to check border panics
         let packet = stream.split_to(fixed_header.frame_length());
         let packet_type = fixed_header.packet_type()?;
+        fixed_header.check_flags(packet_type)?;
 
         if fixed_header.remaining_len == 0 && packet_type != PacketType::Disconnect {
             return match packet_type {
@@ -353,6 +354,21 @@ impl FixedHeader {
         }
     }
 
+    /// Checks the flags that are reserved for the packet type
+    fn check_flags(&self, packet_type: PacketType) -> Result<(), Error> {
+        let reserved = match packet_type {
+            PacketType::Publish => return Ok(()),
+            PacketType::PubRel | PacketType::Subscribe | PacketType::Unsubscribe => 0b0010,
+            _ => 0b0000,
+        };
+
+        if self.byte1 & 0b1111 != reserved {
+            return Err(Error::MalformedPacket);
+        }
+
+        Ok(())
+    }
+
     /// Returns the size of full packet (fixed header + variable header + payload)
     /// Fixed header is enough to get the size of a frame in the stream
     #[must_use]
-- 
2.43.0


From 10ac162adc7dd0e75d08e0b9f59f612b4a719bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 10/11] fix: reject reserved bits in CONNECT, CONNACK and
 SUBSCRIBE

MQTT-3.1.2-3, MQTT-3.2.2-1 and MQTT-3.8.3-5.
---
 src/connack.rs   | 5 +++++
 src/connect.rs   | 5 +++++
 src/subscribe.rs | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/connack.rs b/src/connack.rs
index 94650f8..47ac95f 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -74,6 +74,11 @@ impl ConnAck {
         bytes.advance(variable_header_index);
 
         let flags = read_u8(&mut bytes)?;
+        // Bits 7-1 are reserved and must be 0
+        if flags & 0b1111_1110 != 0 {
+            return Err(Error::MalformedPacket);
+        }
+
         let return_code = read_u8(&mut bytes)?;
         let properties = ConnAckProperties::read(&mut bytes)?;
         read_end(&bytes)?;
diff --git a/src/connect.rs b/src/connect.rs
index 03ff4f4..0c3d59d 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -40,6 +40,11 @@ impl Connect {
         }
 
         let connect_flags = read_u8(&mut bytes)?;
+        // Bit 0 is reserved and must be 0
+        if connect_flags & 0b1 != 0 {
+            return Err(Error::MalformedPacket);
+        }
+
         let clean_start = (connect_flags & 0b10) != 0;
         let keep_alive = read_u16(&mut bytes)?;
 
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 6b18691..e76647e 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -135,6 +135,11 @@ impl Filter {
         while bytes.has_remaining() {
             let path = read_mqtt_string(bytes)?;
             let options = read_u8(bytes)?;
+            // Bits 7-6 are reserved and must be 0
+            if options & 0b1100_0000 != 0 {
+                return Err(Error::MalformedPacket);
+            }
+
             let requested_qos = options & 0b0000_0011;
 
             let nolocal = options >> 2 & 0b0000_0001;
-- 
2.43.0


From b11d0b8728e8630c81019b5c0c19bd67200560dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 11/11] fix: reject UNSUBSCRIBE without topic filters

MQTT-3.10.3-2. The same is already checked for SUBSCRIBE, SUBACK and UNSUBACK.
---
 src/unsubscribe.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index 6423e79..10641c9 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -61,6 +61,10 @@ impl Unsubscribe {
             filters.push(filter);
         }
 
+        if filters.is_empty() {
+            return Err(Error::EmptySubscription);
+        }
+
         let unsubscribe = Unsubscribe {
             pkid,
             filters,
-- 
2.43.0

