From d5bccb7babdd0990e8b63f5696d03c274889df55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 01/17] fix: read UTF-8 strings that span several chunks of the
 buffer

---
 packet/src/data.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index d6ecbcc..e9f4ada 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -165,12 +165,10 @@ impl MqttDeserialize for MqttUtf8String {
                 available: buf.remaining(),
             });
         }
-        let b = buf.take(len);
-        let bytes = b.chunk();
-        let s = std::str::from_utf8(bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
-        let ret = MqttUtf8String::new(Arc::from(s));
-        buf.advance(len);
-        ret
+        // the string may be spread over more than one chunk of `buf`
+        let bytes = buf.copy_to_bytes(len);
+        let s = std::str::from_utf8(&bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
+        MqttUtf8String::new(Arc::from(s))
     }
 }
 
-- 
2.43.0


From 672de8a2a928d6c0f76f51d59cab65583db98f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 02/17] fix: reject variable byte integers that are not
 minimally encoded

---
 packet/src/data.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index e9f4ada..d4f029c 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -248,6 +248,10 @@ impl MqttDeserialize for MqttVariableBytesInt {
             }
             multiplier += 7;
             if encoded_byte & 0x80 == 0 {
+                // the encoded value must use the minimum number of bytes
+                if encoded_byte == 0 && multiplier > 7 {
+                    return Err(DataParseError::BadMqttVariableBytesInt);
+                }
                 break;
             }
         }
-- 
2.43.0


From 799e3ddccf149a1ed9778d5e9a6a85d14c5d03ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 03/17] fix: report a complete frame that overruns or
 underfills its length as malformed

---
 packet/src/error.rs  |  1 +
 packet/src/packet.rs | 55 ++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/packet/src/error.rs b/packet/src/error.rs
index 91b3298..2e242e2 100644
--- a/packet/src/error.rs
+++ b/packet/src/error.rs
@@ -6,6 +6,7 @@ pub enum DataParseError {
     BadMqttVariableBytesInt,
     BadMqttBinaryData,
     BadPacketType,
+    BadFrame,
     BadProperty,
     BadReasonCode,
     BadConnectMessage,
diff --git a/packet/src/packet.rs b/packet/src/packet.rs
index f17cb04..ba97466 100644
--- a/packet/src/packet.rs
+++ b/packet/src/packet.rs
@@ -1,8 +1,23 @@
 use super::{
-    auth::Auth, connack::ConnAck, connect::Connect, data::MqttOneBytesInt, disconnect::Disconnect,
-    error::DataParseError, helpers::bits_u8, packet_type::PacketType, parsable::*, ping::Ping,
-    puback::PubAck, pubcomp::PubComp, publish::Publish, pubrec::PubRec, pubrel::PubRel,
-    suback::SubAck, subscribe::Subscribe, unsuback::UnsubAck, unsubscribe::Unsubscribe,
+    auth::Auth,
+    connack::ConnAck,
+    connect::Connect,
+    data::{MqttOneBytesInt, MqttVariableBytesInt},
+    disconnect::Disconnect,
+    error::DataParseError,
+    helpers::bits_u8,
+    packet_type::PacketType,
+    parsable::*,
+    ping::Ping,
+    puback::PubAck,
+    pubcomp::PubComp,
+    publish::Publish,
+    pubrec::PubRec,
+    pubrel::PubRel,
+    suback::SubAck,
+    subscribe::Subscribe,
+    unsuback::UnsubAck,
+    unsubscribe::Unsubscribe,
 };
 use bytes::{Buf, BufMut};
 
@@ -170,6 +185,38 @@ impl MqttDeserialize for Packet {
         }
         let byte1 = buf.get_u8();
         let packet_type = PacketType::parse(byte1)?;
+        if packet_type == PacketType::Reserved {
+            return Err(DataParseError::BadPacketType);
+        }
+        let length = MqttVariableBytesInt::deserialize(buf)?;
+        let frame_size = length.inner() as usize;
+        if buf.remaining() < frame_size {
+            return Err(DataParseError::InsufficientBuffer {
+                needed: frame_size,
+                available: buf.remaining(),
+            });
+        }
+        // the packets deserialize their length as well, so put it back in front of the frame
+        let mut header = Vec::with_capacity(4);
+        length.serialize(&mut header);
+        let mut frame = header.as_slice().chain(buf.take(frame_size));
+        let res = Packet::deserialize_frame(packet_type, byte1, &mut frame);
+        match res {
+            // the whole frame is here, so more data will not make it any better
+            Err(DataParseError::InsufficientBuffer { .. }) => Err(DataParseError::BadFrame),
+            Ok(_) if frame.has_remaining() => Err(DataParseError::BadFrame),
+            res => res,
+        }
+    }
+}
+
+impl Packet {
+    /// Deserialize what follows the first byte of a packet; `buf` holds exactly one frame.
+    fn deserialize_frame<T: Buf>(
+        packet_type: PacketType,
+        byte1: u8,
+        buf: &mut T,
+    ) -> Result<Self, DataParseError> {
         match packet_type {
             PacketType::Reserved => Err(DataParseError::BadPacketType),
             PacketType::Connect => Ok(Packet::Connect(Connect::deserialize(buf)?)),
-- 
2.43.0


From e7b6b8995f40251072487a8f9288241d3d44c64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 04/17] fix: let into_bool read boolean properties

---
 packet/src/props.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packet/src/props.rs b/packet/src/props.rs
index 0c5ba87..2e422de 100644
--- a/packet/src/props.rs
+++ b/packet/src/props.rs
@@ -400,7 +400,7 @@ enum MqttPropValueInner {
 pub struct MqttPropValue(MqttPropValueInner);
 impl MqttPropValue {
     pub fn into_bool(&self) -> Option<bool> {
-        if let MqttPropValueInner::Byte(i) = &self.0 {
+        if let MqttPropValueInner::Bool(i) = &self.0 {
             Some(i.inner() == 1)
         } else {
             None
-- 
2.43.0


From fb695372c44f8fae49c56183bc28eeb79fdb76e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 05/17] fix: leave the CONNECT flags alone when setting the
 user name or password fails

---
 packet/src/connect.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packet/src/connect.rs b/packet/src/connect.rs
index ee5ce91..6da27e0 100644
--- a/packet/src/connect.rs
+++ b/packet/src/connect.rs
@@ -212,16 +212,16 @@ impl Connect {
         self.username.as_ref().map(|s| s.inner())
     }
     pub fn set_username(&mut self, username: Arc<str>) -> Result<(), DataParseError> {
-        self.flags |= ConnectFlags::USERNAME;
         self.username = Some(MqttUtf8String::new(username)?);
+        self.flags |= ConnectFlags::USERNAME;
         Ok(())
     }
     pub fn password(&self) -> Option<&Bytes> {
         self.password.as_ref().map(|p| p.inner())
     }
     pub fn set_password<T: Buf>(&mut self, password: T) -> Result<(), DataParseError> {
-        self.flags |= ConnectFlags::PASSWORD;
         self.password = Some(MqttBinaryData::new(password)?);
+        self.flags |= ConnectFlags::PASSWORD;
         Ok(())
     }
     pub fn keep_alive(&self) -> u16 {
-- 
2.43.0


From e103ec15b3630e5d14eccdb38ae0abc2319d0c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:10 +0000
Subject: [PATCH 06/17] fix: drop the packet identifier when a publish goes
 back to QoS 0

---
 packet/src/publish.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/src/publish.rs b/packet/src/publish.rs
index 81516e6..7442e7f 100644
--- a/packet/src/publish.rs
+++ b/packet/src/publish.rs
@@ -124,6 +124,10 @@ impl Publish {
     pub fn set_qos(&mut self, qos: QoS) {
         self.flags -= PublishFlags::QOS1 | PublishFlags::QOS2;
         self.flags |= qos.into();
+        if qos == QoS::QoS0 {
+            // a QoS 0 publish must not carry a packet identifier
+            self.packet_identifier = None;
+        }
     }
     pub fn qos(&self) -> QoS {
         // why unwrap is justified here,
-- 
2.43.0


From 1a1b5f4f640e3603d073b9007088560e8e1c3ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:10 +0000
Subject: [PATCH 07/17] fix: do not panic when refusing a packet of a client
 that is gone

---
 server-lib/src/dispatcher.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index b067667..72263b1 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -41,9 +41,11 @@ impl Dispatcher {
     async fn unimplemented(&mut self, client: &str) -> Result<(), ServerError> {
         let disconnect = Disconnect::new(DisconnectReasonCode::ImplementationSpecificError).build();
         let clients = self.clients.read().await;
-        let c = clients.get(client).unwrap();
-        if c.send(disconnect).is_err() {
-            error!(clientid = client, "Internal Error: tx closed");
+        // the client might have gone away before its packet got processed
+        if let Some(c) = clients.get(client) {
+            if c.send(disconnect).is_err() {
+                error!(clientid = client, "Internal Error: tx closed");
+            }
         }
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
-- 
2.43.0


From 0af7f8d96a893fe2474747e84549abe14585f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:10 +0000
Subject: [PATCH 08/17] fix: do not let a subscription option crash the
 dispatcher on publish

---
 server-lib/src/dispatcher.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 72263b1..73cf46a 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -113,22 +113,16 @@ impl Dispatcher {
             if target.as_ref() == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
                 continue;
             }
-            if info.flags.contains(SubscriptionFlags::RETAIN_AS_PUBLISHED) {
-                unimplemented!();
-            }
             if let Some(c) = clients.get(&target) {
                 #[cfg(feature = "noise")]
                 if strict_encryption && !c.encrypted() {
                     continue;
                 }
-                match info.qos {
-                    QoS::QoS0 => {
-                        if c.send(resp.clone()).is_err() {
-                            trace!(clientid = target.as_ref(), "client shutdown: tx closed");
-                        };
-                    }
-                    _ => unimplemented!(),
-                }
+                // Only QoS 0 publishes without RETAIN get here, so neither the QoS of
+                // the subscription nor its RETAIN_AS_PUBLISHED changes what is sent
+                if c.send(resp.clone()).is_err() {
+                    trace!(clientid = target.as_ref(), "client shutdown: tx closed");
+                };
             }
         }
         Ok(())
-- 
2.43.0


From 6e792ef88a1aa77b3a3719edc5e2aa0ea0fae7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:10 +0000
Subject: [PATCH 09/17] fix: do not crash on a CONNECT that has a user property

---
 server-lib/src/clients/clientworker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index b517346..b55d91e 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -158,7 +158,7 @@ impl ClientWorker {
                 }
                 Property::UserProperty => warn!(
                     "Client is using strange property in connect packet {:?}",
-                    v.into_str_pair().unwrap()
+                    v.into_str()
                 ),
                 Property::AuthenticationMethod => {
                     error!("Client attempted Authentication which is not supported");
-- 
2.43.0


From 6fa8e31caca1f5d9aa56601562d71c8f41d8409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:10 +0000
Subject: [PATCH 10/17] fix: keep room for at least one packet in the
 dispatcher queue

---
 server-lib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index ec2711a..783e391 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -32,7 +32,7 @@ pub struct MqttServer {
 impl MqttServer {
     #[instrument(name = "MqttServer::new", skip(cfg))]
     pub async fn new(cfg: MqttServerConfig) -> Result<Self, ServerError> {
-        let queue_len = cfg.dispatcher_queue_size / size_of::<PacketInfo>();
+        let queue_len = (cfg.dispatcher_queue_size / size_of::<PacketInfo>()).max(1);
         let (incoming_tx, incoming_rx) = channel(queue_len);
         let shutdown = Arc::new(Notify::new());
         let cfg = Arc::new(cfg);
-- 
2.43.0


From e7f6be2a0c3412d11d9543caa220cc1406755c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:10 +0000
Subject: [PATCH 11/17] fix: stop reading from a client that closed its
 connection

---
 server-lib/src/clients/mqttclient.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index 0795860..caab21c 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -61,7 +61,9 @@ impl MqttClient {
                     }
                     self.tcp_reader
                         .set_limit(self.max_packet_size as u64 - self.bytes.remaining() as u64);
-                    self.tcp_reader.read_buf(&mut self.bytes).await?;
+                    if self.tcp_reader.read_buf(&mut self.bytes).await? == 0 {
+                        return Err(ServerError::Misc("Client disconnected".to_owned()));
+                    }
                 }
                 Err(e) => return Err(e.into()),
             }
-- 
2.43.0


From f9c8767c8012b09b4731b9fc6d162eec8eea8903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 12/17] fix: judge encryption by the connection a publish came
 from

A plain connection that took over the client identifier of an encrypted
publisher made the dispatcher forward its queued messages to unencrypted
clients under strict permeability.
---
 server-lib/src/clients/clientworker.rs |  1 +
 server-lib/src/dispatcher.rs           | 40 +++++++++++++++-----------
 server-lib/src/packetinfo.rs           |  2 ++
 3 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index b55d91e..f82aaa5 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -56,6 +56,7 @@ impl ClientWorker {
                 let packet = p?;
                 let p = PacketInfo {
                     senderid: self.internals.clientid.clone(),
+                    encrypted: self.internals.encrypted(),
                     packet,
                 };
                 self.incoming.send(p).await.
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 73cf46a..792ff7b 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -51,22 +51,25 @@ impl Dispatcher {
     }
 
     #[instrument(skip_all)]
-    async fn process_publish(&mut self, client: &str, publish: Publish) -> Result<(), ServerError> {
+    async fn process_publish(
+        &mut self,
+        client: &str,
+        encrypted: bool,
+        publish: Publish,
+    ) -> Result<(), ServerError> {
         trace!("Processing a publish packet");
         #[cfg(feature = "noise")]
-        let strict_encryption = {
-            let clients = self.clients.read().await;
-            match clients.get(client) {
-                Some(c) => c.encrypted() && self.cfg.channel_permeability == Permeability::Strict,
-                None => {
-                    warn!(
-                        clientid = client,
-                        "Client Prematurely shutdown before its publish request could be processed"
-                    );
-                    return Ok(());
-                }
-            }
-        };
+        if !self.clients.read().await.contains_key(client) {
+            warn!(
+                clientid = client,
+                "Client Prematurely shutdown before its publish request could be processed"
+            );
+            return Ok(());
+        }
+        // what counts is the connection the packet came from, by now another connection might
+        // have taken over the client identifier
+        #[cfg(feature = "noise")]
+        let strict_encryption = encrypted && self.cfg.channel_permeability == Permeability::Strict;
         match publish.qos() {
             QoS::QoS0 => (),
             QoS::QoS1 => return self.unimplemented(client).await,
@@ -193,10 +196,11 @@ impl Dispatcher {
     async fn process_packet(
         &mut self,
         client: Arc<str>,
+        encrypted: bool,
         packet: Packet,
     ) -> Result<(), ServerError> {
         match packet {
-            Packet::Publish(publish) => self.process_publish(&client, publish).await,
+            Packet::Publish(publish) => self.process_publish(&client, encrypted, publish).await,
             Packet::Subscribe(sub) => self.process_subscribe(&client, sub).await,
             _ => self.unimplemented(&client).await,
         }
@@ -211,7 +215,11 @@ impl Dispatcher {
                 }
             };
             if let Err(e) = self
-                .process_packet(packetinfo.senderid.clone(), packetinfo.packet)
+                .process_packet(
+                    packetinfo.senderid.clone(),
+                    packetinfo.encrypted,
+                    packetinfo.packet,
+                )
                 .await
             {
                 error!(clientid = &*packetinfo.senderid, "{:?}", e);
diff --git a/server-lib/src/packetinfo.rs b/server-lib/src/packetinfo.rs
index 6c7f51a..123636d 100644
--- a/server-lib/src/packetinfo.rs
+++ b/server-lib/src/packetinfo.rs
@@ -3,5 +3,7 @@ use std::sync::Arc;
 
 pub struct PacketInfo {
     pub senderid: Arc<str>,
+    /// the connection this packet came from is encrypted
+    pub encrypted: bool,
     pub packet: Packet,
 }
-- 
2.43.0


From 162adafe84b6169f2fafbc0a7179c1e973a72ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 13/17] fix: drop a connection that was not established before
 the shutdown

---
 server-lib/src/clients/mqttclient.rs  |  5 ++++-
 server-lib/src/clients/noiseclient.rs | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index caab21c..dab3c89 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -172,7 +172,10 @@ async fn _connect_client(
     let saddr = format!("{}", saddr);
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr,
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 5c74520..8ff6958 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -183,7 +183,10 @@ async fn _connect_client(
     let saddr_str = format!("{}", saddr);
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr_str, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr_str, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr_str,
@@ -208,7 +211,10 @@ async fn _connect_client(
     };
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr_str, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr_str, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr_str,
-- 
2.43.0


From 436b456f0e35bbae64919798b4b1586aba7cc0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 14/17] fix: do not take the tail of the decryption buffer for
 packet data

---
 server-lib/src/clients/noiseclient.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 8ff6958..d0398f6 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -52,9 +52,9 @@ impl NoiseClient {
             .ok_or_else(|| ServerError::Misc("Client disconnected".to_owned()))??;
         //TODO when you implement noise protocol by hand... make sure to make this happen in place
         let mut message = vec![0; frame.remaining()];
-        self.crypto.read_message(&frame[..], &mut message)?;
+        let size = self.crypto.read_message(&frame[..], &mut message)?;
 
-        let mut buf: &[u8] = message.as_ref();
+        let mut buf: &[u8] = &message[..size];
         match Packet::from_bytes(&mut buf) {
             Ok(packet) => Ok(packet),
             Err(DataParseError::InsufficientBuffer {
-- 
2.43.0


From 6179c43f2173b3d2ca023580386f170e4dd1522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 15/17] fix: keep the latest connection registered under a
 client identifier, and only that

---
 server-lib/src/clients/client.rs       |  5 ++++
 server-lib/src/clients/clientworker.rs |  4 ++--
 server-lib/src/clients/mod.rs          | 32 +++++++++++++++++---------
 3 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/server-lib/src/clients/client.rs b/server-lib/src/clients/client.rs
index d4fcf3c..55424de 100644
--- a/server-lib/src/clients/client.rs
+++ b/server-lib/src/clients/client.rs
@@ -52,6 +52,11 @@ impl Client {
         self.killme.notify_one();
     }
 
+    /// Whether both belong to the same connection, client identifiers can be taken over
+    pub(super) fn same_connection(&self, other: &Client) -> bool {
+        Arc::ptr_eq(&self.killme, &other.killme)
+    }
+
     pub fn send(&self, packet: Packet) -> Result<(), ServerError> {
         self.outgoing
             .send(packet)
diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index f82aaa5..60c38d0 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -81,7 +81,7 @@ impl ClientWorker {
         }
     }
     #[instrument(name = "ClientWorker::run", skip_all)]
-    pub(super) async fn run(mut self) -> Arc<str> {
+    pub(super) async fn run(mut self) -> Client {
         let shutdown = self.internals.shutdown.clone();
         let killme = self.internals.killme.clone();
         tokio::select! {
@@ -89,7 +89,7 @@ impl ClientWorker {
             _ = shutdown.notified() => (),
             _ = self.listen_forever() => (),
         }
-        self.internals.clientid
+        self.internals
     }
 
     pub(super) fn internals(&self) -> &Client {
diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index cdb5e84..c702a6a 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -28,7 +28,7 @@ pub struct ClientManager {
     clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
     cfg: Arc<MqttServerConfig>,
     shutdown: Arc<Notify>,
-    workers: FuturesUnordered<JoinHandle<Arc<str>>>,
+    workers: FuturesUnordered<JoinHandle<Client>>,
 }
 
 impl ClientManager {
@@ -94,24 +94,34 @@ impl ClientManager {
                 return false;
             }
         };
-        let client = worker.internals();
-        self.clients
-            .write()
-            .await
-            .insert(client.clientid.clone(), client.clone());
+        let client = worker.internals().clone();
+        let id = client.clientid.clone();
+        let taken_over = self.clients.write().await.insert(id, client);
+        if let Some(client) = taken_over {
+            // there is only one connection per client identifier, the latest one
+            client.killme();
+        }
         self.workers
             .push(tokio::spawn(async move { worker.run().await }));
         true
     }
-    async fn process_retiring_worker(&mut self, maybe_id: Option<Result<Arc<str>, JoinError>>) {
+    async fn process_retiring_worker(&mut self, maybe_client: Option<Result<Client, JoinError>>) {
         //TODO we don't remove the worker information from the topic file system yet
-        match maybe_id {
+        match maybe_client {
             Some(Err(e)) => error!(
                 "Failed joining one of the threads, possible orphan threads running, {:?}",
                 e
             ),
-            Some(Ok(id)) => {
-                self.clients.write().await.remove(&id);
+            Some(Ok(client)) => {
+                let mut clients = self.clients.write().await;
+                // another connection might have taken over the client identifier
+                let current = match clients.get(&client.clientid) {
+                    Some(c) => c.same_connection(&client),
+                    None => false,
+                };
+                if current {
+                    clients.remove(&client.clientid);
+                }
             }
             None => (),
         };
@@ -132,7 +142,7 @@ impl ClientManager {
                 w = self.rx.recv() => if !self.process_new_worker(w).await {
                     break;
                 },
-                clientid = self.workers.next() => self.process_retiring_worker(clientid).await,
+                client = self.workers.next() => self.process_retiring_worker(client).await,
             };
         }
     }
-- 
2.43.0


From 167c5de629a892aa3499fe5c89a12d6bccd90e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 16/17] fix: pass the shutdown notice on, it is for every task

---
 server-lib/src/clients/clientworker.rs | 3 ++-
 server-lib/src/clients/mod.rs          | 3 ++-
 server-lib/src/clients/mqttclient.rs   | 5 ++++-
 server-lib/src/clients/noiseclient.rs  | 7 ++++++-
 server-lib/src/dispatcher.rs           | 3 ++-
 5 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 60c38d0..4a552c3 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -86,7 +86,8 @@ impl ClientWorker {
         let killme = self.internals.killme.clone();
         tokio::select! {
             _ = killme.notified() => (),
-            _ = shutdown.notified() => (),
+            // the notice is for every task, so pass it on
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => (),
         }
         self.internals
diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index c702a6a..88d887f 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -149,7 +149,8 @@ impl ClientManager {
     async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            // the notice is for every task, so pass it on
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.process_forever() => ()
         };
         while self.workers.next().await.is_some() {
diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index dab3c89..d1a50e1 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -125,7 +125,8 @@ impl MqttListener {
     pub async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            // the notice is for every task, so pass it on
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => ()
         };
         info!("shutting down");
@@ -173,6 +174,8 @@ async fn _connect_client(
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr, "MQTT Connection established"),
         ConnectState::ShuttingDown => {
+            // the notice is for every task, so pass it on
+            shutdown.notify_one();
             info!(SocketAddr = &*saddr, "Shutting down");
             return;
         }
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index d0398f6..6e692f9 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -124,7 +124,8 @@ impl NoiseListener {
     pub async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            // the notice is for every task, so pass it on
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => ()
         };
         info!("shutting down");
@@ -184,6 +185,8 @@ async fn _connect_client(
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
         ConnectState::ShuttingDown => {
+            // the notice is for every task, so pass it on
+            shutdown.notify_one();
             info!(SocketAddr = &*saddr_str, "Shutting down");
             return;
         }
@@ -212,6 +215,8 @@ async fn _connect_client(
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
         ConnectState::ShuttingDown => {
+            // the notice is for every task, so pass it on
+            shutdown.notify_one();
             info!(SocketAddr = &*saddr_str, "Shutting down");
             return;
         }
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 792ff7b..73af47e 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -230,7 +230,8 @@ impl Dispatcher {
     async fn run(self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            // the notice is for every task, so pass it on
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.process_forever() => (),
         }
     }
-- 
2.43.0


From 5724a0f5d9ff4dd96ee76e4cf52a39a67edfc0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 17/17] fix: two subscriptions that create the same block at
 the same time no longer replace one another's

create_if_not_existing looks for the block under the read lock and creates
it under the write lock, so a second call may have created it, and a
subscriber may have been stored in it, in between: inserting unconditionally
lost that subscription.
---
 server-lib/src/topics.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 3c0f25c..a96629a 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -194,11 +194,13 @@ impl Block {
     }
     async fn create_if_not_existing(&self, subtopic: &str) {
         if !self.contains_subtopic(subtopic).await {
-            let block = Block::new();
+            // another subscription may have created it in the meantime, that
+            // block must not be replaced: it may have subscribers already
             self.write()
                 .await
                 .sub_blocks
-                .insert(Arc::from(subtopic), block);
+                .entry(Arc::from(subtopic))
+                .or_insert_with(Block::new);
         }
     }
 }
-- 
2.43.0

