From 6dd94c271d4c2c7c7da95b3461c87aeeb3555752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 1/8] fix: patch CONNECT flags at their position in the buffer,
 not at an absolute index

Connect::write assumed the output buffer was empty, so encoding a CONNECT
behind other data overwrote one of the bytes already queued and left the
connect flags without will and login bits.
---
 src/connect.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connect.rs b/src/connect.rs
index 0cfe773..6773ff0 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -102,7 +102,7 @@ impl Connect {
         write_mqtt_string(buffer, &mqtt_string_new("MQTT"))?;
 
         buffer.put_u8(0x05);
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = buffer.len();
 
         let mut connect_flags = 0;
         if self.clean_start {
-- 
2.43.0


From bdcfa434067627f2b8d6a06f198b1ba015b1b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 2/8] fix: report an error instead of panicking on CONNACK
 codes MQTT 5 cannot express

RefusedProtocolVersion, BadClientId and ServiceUnavailable are MQTT 3.1.1
return codes; ConnAck::write ran into unreachable!() for them.
---
 src/connack.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/connack.rs b/src/connack.rs
index f9ace21..5d8de00 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -90,11 +90,12 @@ impl ConnAck {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = Self::len(self);
+        let code = connect_code(self.code)?;
         buffer.put_u8(0x20);
 
         let count = write_remaining_length(buffer, len)?;
         buffer.put_u8(u8::from(self.session_present));
-        buffer.put_u8(connect_code(self.code));
+        buffer.put_u8(code);
 
         if let Some(p) = &self.properties {
             p.write(buffer)?;
@@ -466,8 +467,8 @@ fn connect_return(num: u8) -> Result<ConnectReturnCode, Error> {
     Ok(code)
 }
 
-fn connect_code(return_code: ConnectReturnCode) -> u8 {
-    match return_code {
+fn connect_code(return_code: ConnectReturnCode) -> Result<u8, Error> {
+    let code = match return_code {
         ConnectReturnCode::Success => 0,
         ConnectReturnCode::UnspecifiedError => 128,
         ConnectReturnCode::MalformedPacket => 129,
@@ -490,8 +491,15 @@ fn connect_code(return_code: ConnectReturnCode) -> u8 {
         ConnectReturnCode::UseAnotherServer => 156,
         ConnectReturnCode::ServerMoved => 157,
         ConnectReturnCode::ConnectionRateExceeded => 159,
-        _ => unreachable!(),
-    }
+        // MQTT 3.1.1 return codes, not expressible in MQTT 5
+        ConnectReturnCode::RefusedProtocolVersion => {
+            return Err(Error::InvalidConnectReturnCode(1));
+        }
+        ConnectReturnCode::BadClientId => return Err(Error::InvalidConnectReturnCode(2)),
+        ConnectReturnCode::ServiceUnavailable => return Err(Error::InvalidConnectReturnCode(3)),
+    };
+
+    Ok(code)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 962cb7fbd58b3846499c99fa1aed4c24fa016fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 3/8] fix: write DISCONNECT reason codes with the right
 remaining length

Without properties the remaining length was one byte short of what was
written, leaving a stray byte in the stream; with an empty property set
the computed length of 2 was taken for the reason-less short form and the
reason code was lost.
---
 src/disconnect.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 7931da4..0446931 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -260,18 +260,17 @@ impl Disconnect {
         if self.reason_code == DisconnectReasonCode::NormalDisconnection
             && self.properties.is_none()
         {
-            return 2; // Packet type + 0x00
+            return 0; // Reason code and properties can be left out
         }
 
-        let mut length = 0;
+        let mut length = 1; // Disconnect Reason Code
 
         if let Some(properties) = &self.properties {
-            length += 1; // Disconnect Reason Code
-
             let properties_len = properties.len();
             let properties_len_len = len_len(properties_len);
             length += properties_len_len + properties_len;
         } else {
+            // just 1 byte representing 0 len
             length += 1;
         }
 
@@ -281,10 +280,6 @@ impl Disconnect {
     #[must_use]
     pub fn size(&self) -> usize {
         let len = self.len();
-        if len == 2 {
-            return len;
-        }
-
         let remaining_len_size = len_len(len);
 
         1 + remaining_len_size + len
@@ -323,13 +318,12 @@ impl Disconnect {
 
         let length = self.len();
 
-        if length == 2 {
-            buffer.put_u8(0x00);
-            return Ok(length);
-        }
-
         let len_len = write_remaining_length(buffer, length)?;
 
+        if length == 0 {
+            return Ok(1 + len_len);
+        }
+
         buffer.put_u8(self.reason_code as u8);
 
         if let Some(properties) = &self.properties {
-- 
2.43.0


From 2db0bd4acaa2e48cf2708156578f17f7f6a8e21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 4/8] fix: accept a DISCONNECT that carries only a reason code

MQTT 5 3.14.2.2.1: if the remaining length is less than 2, a property
length of 0 is used.
---
 src/disconnect.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 0446931..d20ae8d 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -305,6 +305,11 @@ impl Disconnect {
 
         let reason_code = read_u8(&mut bytes)?;
 
+        // No properties len or properties if remaining len < 2
+        if fixed_header.remaining_len < 2 {
+            return Ok(Self::new(reason_code.try_into()?));
+        }
+
         let disconnect = Self {
             reason_code: reason_code.try_into()?,
             properties: DisconnectProperties::extract(&mut bytes)?,
-- 
2.43.0


From 0561cabc8bc50c579b7650f7eeccd9edb598d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 5/8] fix: report a property length cut off by the end of the
 frame as malformed

The frame has been taken off the stream by then, so InsufficientBytes
would make the caller wait for input that cannot complete it.
---
 src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7c80fe6..918eca9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -428,7 +428,12 @@ pub(crate) fn parse_fixed_header(mut stream: Iter<u8>) -> Result<FixedHeader, Er
     }
 
     let byte1 = stream.next().unwrap();
-    let (len_len, len) = length(stream)?;
+    let (len_len, len) = match length(stream) {
+        // Not enough bytes to frame remaining length. wait for
+        // one more byte
+        Err(Error::MalformedPacket) => return Err(Error::InsufficientBytes(1)),
+        length => length?,
+    };
 
     Ok(FixedHeader::new(*byte1, len_len, len))
 }
@@ -466,10 +471,9 @@ fn length(stream: Iter<u8>) -> Result<(usize, usize), Error> {
         }
     }
 
-    // Not enough bytes to frame remaining length. wait for
-    // one more byte
+    // Not enough bytes to frame the integer
     if !done {
-        return Err(Error::InsufficientBytes(1));
+        return Err(Error::MalformedPacket);
     }
 
     Ok((len_len, len))
-- 
2.43.0


From b80548241715d9eea33df7d3d4412e01f27cae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 6/8] fix: do not count the subscription identifier's property
 byte twice

The identifier byte is already counted when it is read. Counting it again
ended the property section one byte early for each identifier, and the
last properties of the section were taken for payload or filters.
---
 src/publish.rs   | 2 +-
 src/subscribe.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/publish.rs b/src/publish.rs
index 1536467..2576c96 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -231,7 +231,7 @@ impl PublishProperties {
                 }
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, id) = length(bytes.iter())?;
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
                 }
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 7c25bb5..2765996 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -241,8 +241,7 @@ impl SubscribeProperties {
             match property(prop)? {
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, sub_id) = length(bytes.iter())?;
-                    // TODO: Validate 1 +. Tests are working either way
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     id = Some(sub_id);
                 }
-- 
2.43.0


From e7ec57a8e02426f274a6b35c1fb11daf234d3699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 7/8] fix: reject a property that extends past the end of its
 property section

The announced property length was only checked before reading an item, so
the last item could run into the bytes that follow the section.
---
 src/connack.rs     | 4 ++++
 src/connect.rs     | 8 ++++++++
 src/disconnect.rs  | 4 ++++
 src/puback.rs      | 4 ++++
 src/pubcomp.rs     | 4 ++++
 src/publish.rs     | 4 ++++
 src/pubrec.rs      | 4 ++++
 src/pubrel.rs      | 4 ++++
 src/suback.rs      | 4 ++++
 src/subscribe.rs   | 4 ++++
 src/unsuback.rs    | 4 ++++
 src/unsubscribe.rs | 4 ++++
 12 files changed, 52 insertions(+)

diff --git a/src/connack.rs b/src/connack.rs
index 5d8de00..e5643a4 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -321,6 +321,10 @@ impl ConnAckProperties {
             }
         }
 
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnAckProperties {
             session_expiry_interval,
             receive_max,
diff --git a/src/connect.rs b/src/connect.rs
index 6773ff0..c6c0ef2 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -238,6 +238,10 @@ impl ConnectProperties {
             }
         }
 
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnectProperties {
             session_expiry_interval,
             receive_maximum,
@@ -532,6 +536,10 @@ impl LastWillProperties {
             }
         }
 
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(LastWillProperties {
             delay_interval,
             payload_format_indicator,
diff --git a/src/disconnect.rs b/src/disconnect.rs
index d20ae8d..1ea9fec 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -208,6 +208,10 @@ impl DisconnectProperties {
             }
         }
 
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         let properties = Self {
             session_expiry_interval,
             reason_string,
diff --git a/src/puback.rs b/src/puback.rs
index bb7902f..0117009 100644
--- a/src/puback.rs
+++ b/src/puback.rs
@@ -179,6 +179,10 @@ impl PubAckProperties {
             }
         }
 
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/pubcomp.rs b/src/pubcomp.rs
index d3cc6f1..aee2845 100644
--- a/src/pubcomp.rs
+++ b/src/pubcomp.rs
@@ -172,6 +172,10 @@ impl PubCompProperties {
             }
         }
 
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubCompProperties {
             reason_string,
             user_properties,
diff --git a/src/publish.rs b/src/publish.rs
index 2576c96..fae8898 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -244,6 +244,10 @@ impl PublishProperties {
             }
         }
 
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PublishProperties {
             payload_format_indicator,
             message_expiry_interval,
diff --git a/src/pubrec.rs b/src/pubrec.rs
index 888a5af..30b0fcc 100644
--- a/src/pubrec.rs
+++ b/src/pubrec.rs
@@ -174,6 +174,10 @@ impl PubRecProperties {
             }
         }
 
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRecProperties {
             reason_string,
             user_properties,
diff --git a/src/pubrel.rs b/src/pubrel.rs
index 70c4065..fee2086 100644
--- a/src/pubrel.rs
+++ b/src/pubrel.rs
@@ -173,6 +173,10 @@ impl PubRelProperties {
             }
         }
 
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRelProperties {
             reason_string,
             user_properties,
diff --git a/src/suback.rs b/src/suback.rs
index 8319041..34bd853 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -151,6 +151,10 @@ impl SubAckProperties {
             }
         }
 
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 2765996..f978052 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -255,6 +255,10 @@ impl SubscribeProperties {
             }
         }
 
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubscribeProperties {
             id,
             user_properties,
diff --git a/src/unsuback.rs b/src/unsuback.rs
index 76a7bbc..bce3af2 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -148,6 +148,10 @@ impl UnsubAckProperties {
             }
         }
 
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index cef2250..e7cb39f 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -137,6 +137,10 @@ impl UnsubscribeProperties {
             }
         }
 
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubscribeProperties { user_properties }))
     }
 
-- 
2.43.0


From fb16653e4d524264c71cd2e9ce47838bb83fddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 8/8] fix: leave the buffer as it was when a packet cannot be
 encoded

Packet::write left the bytes written before the error in the buffer, where
the next packet would be queued behind half a frame.
---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 918eca9..b26ed9d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -216,7 +216,8 @@ impl Packet {
     }
 
     pub fn write(&self, write: &mut BytesMut) -> Result<usize, Error> {
-        match self {
+        let start = write.len();
+        let result = match self {
             Self::Publish(publish) => publish.write(write),
             Self::Subscribe(subscription) => subscription.write(write),
             Self::Unsubscribe(unsubscribe) => unsubscribe.write(write),
@@ -231,7 +232,14 @@ impl Packet {
             Self::PingReq(_) => PingReq::write(write),
             Self::PingResp(_) => PingResp::write(write),
             Self::Disconnect(disconnect) => disconnect.write(write),
+        };
+
+        // Don't leave a part of the packet in the buffer
+        if result.is_err() {
+            write.truncate(start);
         }
+
+        result
     }
 }
 
-- 
2.43.0

