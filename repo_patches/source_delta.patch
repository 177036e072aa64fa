From aeaa86583e74c7a2dc1ce66eb2a0c72a398610f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 01/25] fix: reject over-long variable byte integer encodings

A value encoded in more bytes than necessary was accepted, so a decoded
packet claimed a different length than the bytes it was decoded from, and a
fourth byte announcing a fifth one was reported as an incomplete buffer.
---
 packet/src/data.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index d6ecbcc..bcd8a50 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -245,13 +245,17 @@ impl MqttDeserialize for MqttVariableBytesInt {
             remaining -= 1;
             let encoded_byte = buf.get_u8() as u32;
             value += (encoded_byte & 127) << multiplier;
-            if multiplier > 21 {
-                return Err(DataParseError::BadMqttVariableBytesInt);
-            }
             multiplier += 7;
             if encoded_byte & 0x80 == 0 {
+                // the shortest possible encoding must be used
+                if encoded_byte == 0 && multiplier > 7 {
+                    return Err(DataParseError::BadMqttVariableBytesInt);
+                }
                 break;
             }
+            if multiplier > 21 {
+                return Err(DataParseError::BadMqttVariableBytesInt);
+            }
         }
         Ok(MqttVariableBytesInt { i: value })
     }
-- 
2.43.0


From 0e777b1df17c5f9c49c49af05ffb158c227b7c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 02/25] fix: decode a packet from exactly its own frame

Bytes left over inside a frame were skipped or taken for the next packet, and
a length field running past the end of a complete frame was reported as an
incomplete buffer, which makes the receiver wait for bytes that never come.
---
 packet/src/packet.rs | 48 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/packet/src/packet.rs b/packet/src/packet.rs
index f17cb04..439ae51 100644
--- a/packet/src/packet.rs
+++ b/packet/src/packet.rs
@@ -1,8 +1,23 @@
 use super::{
-    auth::Auth, connack::ConnAck, connect::Connect, data::MqttOneBytesInt, disconnect::Disconnect,
-    error::DataParseError, helpers::bits_u8, packet_type::PacketType, parsable::*, ping::Ping,
-    puback::PubAck, pubcomp::PubComp, publish::Publish, pubrec::PubRec, pubrel::PubRel,
-    suback::SubAck, subscribe::Subscribe, unsuback::UnsubAck, unsubscribe::Unsubscribe,
+    auth::Auth,
+    connack::ConnAck,
+    connect::Connect,
+    data::{MqttOneBytesInt, MqttVariableBytesInt},
+    disconnect::Disconnect,
+    error::DataParseError,
+    helpers::bits_u8,
+    packet_type::PacketType,
+    parsable::*,
+    ping::Ping,
+    puback::PubAck,
+    pubcomp::PubComp,
+    publish::Publish,
+    pubrec::PubRec,
+    pubrel::PubRel,
+    suback::SubAck,
+    subscribe::Subscribe,
+    unsuback::UnsubAck,
+    unsubscribe::Unsubscribe,
 };
 use bytes::{Buf, BufMut};
 
@@ -170,6 +185,31 @@ impl MqttDeserialize for Packet {
         }
         let byte1 = buf.get_u8();
         let packet_type = PacketType::parse(byte1)?;
+        let length = MqttVariableBytesInt::deserialize(buf)?;
+        let needed = length.inner() as usize;
+        if buf.remaining() < needed {
+            return Err(DataParseError::InsufficientBuffer {
+                needed,
+                available: buf.remaining(),
+            });
+        }
+        // hand over exactly one frame, it must be used up and it can not ask for more
+        let mut header = Vec::with_capacity(length.size());
+        length.serialize(&mut header);
+        let mut frame = (&header[..]).chain(buf.take(needed));
+        match Packet::deserialize_frame(byte1, packet_type, &mut frame) {
+            Err(DataParseError::InsufficientBuffer { .. }) => Err(DataParseError::BadPacketType),
+            Ok(_) if frame.has_remaining() => Err(DataParseError::BadPacketType),
+            res => res,
+        }
+    }
+}
+impl Packet {
+    fn deserialize_frame<T: Buf>(
+        byte1: u8,
+        packet_type: PacketType,
+        buf: &mut T,
+    ) -> Result<Self, DataParseError> {
         match packet_type {
             PacketType::Reserved => Err(DataParseError::BadPacketType),
             PacketType::Connect => Ok(Packet::Connect(Connect::deserialize(buf)?)),
-- 
2.43.0


From 269079a6c1b96430800d75f2c44509dd331494be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 03/25] fix: read a UTF-8 string that spans several chunks of
 the buffer

Buf::chunk only returns the first contiguous part, so the decoded text lost
its tail whenever the buffer was not contiguous.
---
 packet/src/data.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index bcd8a50..5e0b027 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -165,12 +165,9 @@ impl MqttDeserialize for MqttUtf8String {
                 available: buf.remaining(),
             });
         }
-        let b = buf.take(len);
-        let bytes = b.chunk();
-        let s = std::str::from_utf8(bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
-        let ret = MqttUtf8String::new(Arc::from(s));
-        buf.advance(len);
-        ret
+        let bytes = buf.copy_to_bytes(len);
+        let s = std::str::from_utf8(&bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
+        MqttUtf8String::new(Arc::from(s))
     }
 }
 
-- 
2.43.0


From 607f1b4881222e727bea73cac7d782f9b862750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 04/25] fix: MqttPropValue::into_bool reads boolean values

It returned None for every value built by new_bool or decoded from a boolean
property.
---
 packet/src/props.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packet/src/props.rs b/packet/src/props.rs
index 0c5ba87..5c55eab 100644
--- a/packet/src/props.rs
+++ b/packet/src/props.rs
@@ -400,7 +400,7 @@ enum MqttPropValueInner {
 pub struct MqttPropValue(MqttPropValueInner);
 impl MqttPropValue {
     pub fn into_bool(&self) -> Option<bool> {
-        if let MqttPropValueInner::Byte(i) = &self.0 {
+        if let MqttPropValueInner::Bool(i) | MqttPropValueInner::Byte(i) = &self.0 {
             Some(i.inner() == 1)
         } else {
             None
-- 
2.43.0


From 3ff4832f14835e4227b6e0e905135e88d243d728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:54 +0000
Subject: [PATCH 05/25] fix: do not announce a user name or password that was
 refused

Connect set the flag before validating the value, so after a failed setter the
packet announced a field that it does not carry.
---
 packet/src/connect.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packet/src/connect.rs b/packet/src/connect.rs
index ee5ce91..6da27e0 100644
--- a/packet/src/connect.rs
+++ b/packet/src/connect.rs
@@ -212,16 +212,16 @@ impl Connect {
         self.username.as_ref().map(|s| s.inner())
     }
     pub fn set_username(&mut self, username: Arc<str>) -> Result<(), DataParseError> {
-        self.flags |= ConnectFlags::USERNAME;
         self.username = Some(MqttUtf8String::new(username)?);
+        self.flags |= ConnectFlags::USERNAME;
         Ok(())
     }
     pub fn password(&self) -> Option<&Bytes> {
         self.password.as_ref().map(|p| p.inner())
     }
     pub fn set_password<T: Buf>(&mut self, password: T) -> Result<(), DataParseError> {
-        self.flags |= ConnectFlags::PASSWORD;
         self.password = Some(MqttBinaryData::new(password)?);
+        self.flags |= ConnectFlags::PASSWORD;
         Ok(())
     }
     pub fn keep_alive(&self) -> u16 {
-- 
2.43.0


From 7a2735fe1cd573b22a309091c2b8fae65e42d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 06/25] fix: a QoS 0 publish carries no packet identifier

Lowering the QoS after setting an identifier kept it, and the receiver reads
it as part of the properties.
---
 packet/src/publish.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packet/src/publish.rs b/packet/src/publish.rs
index 81516e6..907caba 100644
--- a/packet/src/publish.rs
+++ b/packet/src/publish.rs
@@ -123,6 +123,9 @@ impl Publish {
     }
     pub fn set_qos(&mut self, qos: QoS) {
         self.flags -= PublishFlags::QOS1 | PublishFlags::QOS2;
+        if let QoS::QoS0 = qos {
+            self.packet_identifier = None;
+        }
         self.flags |= qos.into();
     }
     pub fn qos(&self) -> QoS {
-- 
2.43.0


From 34397e624c94ef6114882328104ebf79135bb673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:19 +0000
Subject: [PATCH 07/25] fix: the dispatcher queue holds at least one element

---
 server-lib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index ec2711a..783e391 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -32,7 +32,7 @@ pub struct MqttServer {
 impl MqttServer {
     #[instrument(name = "MqttServer::new", skip(cfg))]
     pub async fn new(cfg: MqttServerConfig) -> Result<Self, ServerError> {
-        let queue_len = cfg.dispatcher_queue_size / size_of::<PacketInfo>();
+        let queue_len = (cfg.dispatcher_queue_size / size_of::<PacketInfo>()).max(1);
         let (incoming_tx, incoming_rx) = channel(queue_len);
         let shutdown = Arc::new(Notify::new());
         let cfg = Arc::new(cfg);
-- 
2.43.0


From 7a5ea4f27c7902174740cb1d45a2c6626e17cbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 08/25] fix: refusing a packet of a client that is gone does
 not panic

---
 server-lib/src/dispatcher.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index b067667..1922a82 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -41,9 +41,11 @@ impl Dispatcher {
     async fn unimplemented(&mut self, client: &str) -> Result<(), ServerError> {
         let disconnect = Disconnect::new(DisconnectReasonCode::ImplementationSpecificError).build();
         let clients = self.clients.read().await;
-        let c = clients.get(client).unwrap();
-        if c.send(disconnect).is_err() {
-            error!(clientid = client, "Internal Error: tx closed");
+        // the client may be gone by the time its packet is processed
+        if let Some(c) = clients.get(client) {
+            if c.send(disconnect).is_err() {
+                error!(clientid = client, "Internal Error: tx closed");
+            }
         }
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
-- 
2.43.0


From 3fc521df4f1243743060c73e8f1fd5fb2c29bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 09/25] fix: forwarding to a retain-as-published subscription
 does not panic

---
 server-lib/src/dispatcher.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 1922a82..ee29dbf 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -113,9 +113,7 @@ impl Dispatcher {
             if target.as_ref() == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
                 continue;
             }
-            if info.flags.contains(SubscriptionFlags::RETAIN_AS_PUBLISHED) {
-                unimplemented!();
-            }
+            // RETAIN_AS_PUBLISHED changes nothing: retained messages were refused above
             if let Some(c) = clients.get(&target) {
                 #[cfg(feature = "noise")]
                 if strict_encryption && !c.encrypted() {
-- 
2.43.0


From ecb787c8f932f9c5da4a4e8627eab0e111d57a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:52 +0000
Subject: [PATCH 10/25] fix: a user property in CONNECT does not panic

---
 server-lib/src/clients/clientworker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index b517346..3a20cf3 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -158,7 +158,7 @@ impl ClientWorker {
                 }
                 Property::UserProperty => warn!(
                     "Client is using strange property in connect packet {:?}",
-                    v.into_str_pair().unwrap()
+                    v.into_str_pair()
                 ),
                 Property::AuthenticationMethod => {
                     error!("Client attempted Authentication which is not supported");
-- 
2.43.0


From dac1e64e4b3979576c38f9e981a7879527a64788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 11/25] fix: the end of a plain connection ends its client

---
 server-lib/src/clients/mqttclient.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index 0795860..caab21c 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -61,7 +61,9 @@ impl MqttClient {
                     }
                     self.tcp_reader
                         .set_limit(self.max_packet_size as u64 - self.bytes.remaining() as u64);
-                    self.tcp_reader.read_buf(&mut self.bytes).await?;
+                    if self.tcp_reader.read_buf(&mut self.bytes).await? == 0 {
+                        return Err(ServerError::Misc("Client disconnected".to_owned()));
+                    }
                 }
                 Err(e) => return Err(e.into()),
             }
-- 
2.43.0


From 2bac0998520841c08ec05035b055be5cac799cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 12/25] fix: every task passes the shutdown notification on

---
 server-lib/src/clients/clientworker.rs |  2 +-
 server-lib/src/clients/mod.rs          |  2 +-
 server-lib/src/clients/mqttclient.rs   |  8 ++++++--
 server-lib/src/clients/noiseclient.rs  | 13 ++++++++++---
 server-lib/src/dispatcher.rs           |  2 +-
 5 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 3a20cf3..3066113 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -85,7 +85,7 @@ impl ClientWorker {
         let killme = self.internals.killme.clone();
         tokio::select! {
             _ = killme.notified() => (),
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => (),
         }
         self.internals.clientid
diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index cdb5e84..7a1222b 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -139,7 +139,7 @@ impl ClientManager {
     async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.process_forever() => ()
         };
         while self.workers.next().await.is_some() {
diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index caab21c..e83ab25 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -125,7 +125,8 @@ impl MqttListener {
     pub async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            // pass it on: one notification wakes one task
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => ()
         };
         info!("shutting down");
@@ -165,7 +166,10 @@ async fn _connect_client(
     let keep_alive = client.cfg().keep_alive as u64;
 
     let state = tokio::select! {
-        _ = shutdown.notified() => ConnectState::ShuttingDown,
+        _ = shutdown.notified() => {
+            shutdown.notify_one();
+            ConnectState::ShuttingDown
+        },
         v = client.connect() => v.into(),
         _ = sleep(Duration::new(keep_alive, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
     };
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 5c74520..f0882c3 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -124,7 +124,8 @@ impl NoiseListener {
     pub async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            // pass it on: one notification wakes one task
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => ()
         };
         info!("shutting down");
@@ -176,7 +177,10 @@ async fn _connect_client(
         .unwrap();
 
     let state = tokio::select! {
-        _ = shutdown.notified() => ConnectState::ShuttingDown,
+        _ = shutdown.notified() => {
+            shutdown.notify_one();
+            ConnectState::ShuttingDown
+        },
         v = handshake(&mut stream, &mut responder) => v.into(),
         _ = sleep(Duration::new(keep_alive * 3, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
     };
@@ -202,7 +206,10 @@ async fn _connect_client(
         incoming,
     );
     let state = tokio::select! {
-        _ = shutdown.notified() => ConnectState::ShuttingDown,
+        _ = shutdown.notified() => {
+            shutdown.notify_one();
+            ConnectState::ShuttingDown
+        },
         v = client.connect() => v.into(),
         _ = sleep(Duration::new(keep_alive, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
     };
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index ee29dbf..681485d 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -226,7 +226,7 @@ impl Dispatcher {
     async fn run(self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.process_forever() => (),
         }
     }
-- 
2.43.0


From 3679e8fab7177593558b551b21f58639cd266fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 13/25] fix: a connection interrupted by shutdown is dropped

---
 server-lib/src/clients/mqttclient.rs  |  5 ++++-
 server-lib/src/clients/noiseclient.rs | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index e83ab25..02f1823 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -176,7 +176,10 @@ async fn _connect_client(
     let saddr = format!("{}", saddr);
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr,
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index f0882c3..65e6c88 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -187,7 +187,10 @@ async fn _connect_client(
     let saddr_str = format!("{}", saddr);
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr_str, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr_str, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr_str,
@@ -215,7 +218,10 @@ async fn _connect_client(
     };
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr_str, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr_str, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr_str,
-- 
2.43.0


From 4e7bb87dea194051d1c67c503ec2cd8884967e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 14/25] fix: decode an encrypted packet from the decrypted
 bytes only

---
 server-lib/src/clients/noiseclient.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 65e6c88..b6d25bb 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -52,9 +52,9 @@ impl NoiseClient {
             .ok_or_else(|| ServerError::Misc("Client disconnected".to_owned()))??;
         //TODO when you implement noise protocol by hand... make sure to make this happen in place
         let mut message = vec![0; frame.remaining()];
-        self.crypto.read_message(&frame[..], &mut message)?;
+        let size = self.crypto.read_message(&frame[..], &mut message)?;
 
-        let mut buf: &[u8] = message.as_ref();
+        let mut buf = &message[..size];
         match Packet::from_bytes(&mut buf) {
             Ok(packet) => Ok(packet),
             Err(DataParseError::InsufficientBuffer {
-- 
2.43.0


From 2ca44e5a7f47c95c5e04ecdc2659001b3ea78bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:06 +0000
Subject: [PATCH 15/25] fix: encrypted connections respect the maximum packet
 size

---
 server-lib/src/cfg.rs                 |  6 ++++++
 server-lib/src/clients/noiseclient.rs | 17 +++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/server-lib/src/cfg.rs b/server-lib/src/cfg.rs
index 493e12e..36dfd13 100644
--- a/server-lib/src/cfg.rs
+++ b/server-lib/src/cfg.rs
@@ -3,5 +3,11 @@ pub const TOPIC_ALIAS_MAX: u16 = 0;
 pub const WILDCARD_SUB: bool = false;
 pub const SUB_ID: bool = false;
 pub const SHARED_SUB: bool = false;
+/// Nothing sent during the handshake is longer than this
+#[cfg(feature = "noise")]
+pub const NOISE_HANDSHAKE_FRAME_MAX: usize = 200;
+/// What encrypting a packet adds to its size
+#[cfg(feature = "noise")]
+pub const NOISE_TAG_LEN: usize = 16;
 #[cfg(feature = "noise")]
 pub const NOISE_PATTERN: &str = "Noise_XK_25519_ChaChaPoly_BLAKE2s";
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index b6d25bb..8597ea4 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -1,6 +1,9 @@
 use super::clientworker::{ClientWorker, Connection};
 use crate::{
-    cfg::NOISE_PATTERN, config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo,
+    cfg::{NOISE_HANDSHAKE_FRAME_MAX, NOISE_PATTERN, NOISE_TAG_LEN},
+    config::MqttServerConfig,
+    error::ServerError,
+    packetinfo::PacketInfo,
 };
 use apiformes_packet::prelude::*;
 use bytes::{Buf, Bytes, BytesMut};
@@ -33,10 +36,14 @@ impl fmt::Debug for NoiseClient {
 
 impl NoiseClient {
     pub fn new(
-        stream: Framed<TcpStream, LengthDelimitedCodec>,
+        mut stream: Framed<TcpStream, LengthDelimitedCodec>,
         saddr: SocketAddr,
         crypto: TransportState,
+        max_packet_size: u32,
     ) -> Self {
+        stream
+            .codec_mut()
+            .set_max_frame_length(max_packet_size as usize + NOISE_TAG_LEN);
         NoiseClient {
             stream,
             saddr,
@@ -169,7 +176,9 @@ async fn _connect_client(
     incoming: Sender<PacketInfo>,
 ) {
     let keep_alive = cfg.keep_alive as u64;
-    let mut stream = Framed::new(stream, LengthDelimitedCodec::new());
+    let mut stream = LengthDelimitedCodec::builder()
+        .max_frame_length(NOISE_HANDSHAKE_FRAME_MAX)
+        .new_framed(stream);
 
     let mut responder = snow::Builder::new(NOISE_PATTERN.parse().unwrap())
         .local_private_key(&cfg.private_key[..])
@@ -201,7 +210,7 @@ async fn _connect_client(
     }
     let transport = responder.into_transport_mode().unwrap();
 
-    let nc = NoiseClient::new(stream, saddr, transport);
+    let nc = NoiseClient::new(stream, saddr, transport, cfg.max_packet_size);
     let mut client = ClientWorker::new(
         Connection::Noise(Box::new(nc)),
         cfg,
-- 
2.43.0


From f6e590f4e8404d08c80ff791e41aa617d81b0387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 16/25] fix: never send a packet larger than what the client
 accepts

---
 server-lib/src/clients/clientworker.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 3066113..00c3578 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -63,11 +63,22 @@ impl ClientWorker {
             }
             p = self.outgoing.recv() => {
                 let packet = p.map(Ok).unwrap_or_else(|| Err(ServerError::Misc("outgoing queue lost all its senders".to_owned())))?;
-                self.conn.send(&packet).await?;
+                self.send(&packet).await?;
             }
         }
         Ok(())
     }
+    /// A packet larger than what the client accepts is dropped instead of sent
+    async fn send(&mut self, packet: &Packet) -> Result<(), ServerError> {
+        if packet.frame_len() > self.internals.max_packet_size as usize {
+            warn!(
+                clientid = &*self.internals.clientid,
+                "Dropping a packet larger than what the client accepts"
+            );
+            return Ok(());
+        }
+        self.conn.send(packet).await
+    }
     async fn listen_forever(&mut self) {
         loop {
             if let Err(e) = self.listen().await {
@@ -116,7 +127,7 @@ impl ClientWorker {
     async fn unimplemented(&mut self) -> Result<(), ServerError> {
         let mut connack = ConnAck::new();
         connack.set_reason_code(ConnAckReasonCode::ImplementationSpecificError);
-        self.conn.send(&connack.build()).await?;
+        self.send(&connack.build()).await?;
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
     #[instrument(name = "ClientWorker::process_connect", skip_all)]
@@ -241,7 +252,11 @@ impl ClientWorker {
                 MqttPropValue::new_u16(self.cfg.keep_alive),
             )
             .unwrap();
-        self.conn.send(&connack.build()).await
+        let connack = connack.build();
+        if connack.frame_len() > self.internals.max_packet_size as usize {
+            return Err(ServerError::MaxPacketSizeExceeded);
+        }
+        self.conn.send(&connack).await
     }
     pub async fn connect(&mut self) -> Result<(), ServerError> {
         match self.conn.recv().await? {
-- 
2.43.0


From d5c7edb3264b3842385d24ba11c7d8b26c8c7898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 17/25] fix: creating a topic block never replaces an existing
 one

---
 server-lib/src/topics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 3c0f25c..21a1012 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -194,11 +194,11 @@ impl Block {
     }
     async fn create_if_not_existing(&self, subtopic: &str) {
         if !self.contains_subtopic(subtopic).await {
-            let block = Block::new();
             self.write()
                 .await
                 .sub_blocks
-                .insert(Arc::from(subtopic), block);
+                .entry(Arc::from(subtopic))
+                .or_insert_with(Block::new);
         }
     }
 }
-- 
2.43.0


From 5d9562e02dc0a8822bf9844264b925f52e00c15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:14 +0000
Subject: [PATCH 18/25] fix: filters starting with a wildcard do not match
 topics starting with $

---
 server-lib/src/topics.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 21a1012..826c9ba 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -347,12 +347,20 @@ impl TopicsTable {
     }
     pub async fn get_all_subscribed(&self, topic: &str) -> HashMap<ClientId, SubscriptionInfo> {
         let mut subs = HashMap::new();
-        let sections = self.topic_to_subtopics(topic);
+        let mut sections = self.topic_to_subtopics(topic);
         trace!(
             "collected_sections {:?}",
             sections.clone().collect::<Vec<_>>()
         );
-        self.root_block.collect_subs(&mut subs, sections).await;
+        if topic.starts_with('$') {
+            // not matched by filters starting with a wildcard
+            let raii = self.root_block.read().await;
+            if let Some(sub_block) = sections.next().and_then(|s| raii.sub_blocks.get(s)) {
+                sub_block.collect_subs(&mut subs, sections).await;
+            }
+        } else {
+            self.root_block.collect_subs(&mut subs, sections).await;
+        }
         subs
     }
 }
-- 
2.43.0


From c86f4c68168e618a7447e47c9e8db963877ee9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 19/25] fix: a topic filter with very many levels does not
 overflow the stack

---
 server-lib/src/cfg.rs        | 2 ++
 server-lib/src/dispatcher.rs | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/cfg.rs b/server-lib/src/cfg.rs
index 36dfd13..ddff27a 100644
--- a/server-lib/src/cfg.rs
+++ b/server-lib/src/cfg.rs
@@ -1,4 +1,6 @@
 pub const MAX_QOS: u8 = 0;
+/// Topic filters with more levels are refused, visiting topics is recursive
+pub const MAX_TOPIC_LEVELS: usize = 128;
 pub const TOPIC_ALIAS_MAX: u16 = 0;
 pub const WILDCARD_SUB: bool = false;
 pub const SUB_ID: bool = false;
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 681485d..36fbf03 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -7,7 +7,7 @@ use super::{
 use tokio::sync::{mpsc::Receiver, Notify, RwLock};
 use tokio::task::JoinHandle;
 
-use super::packetinfo::PacketInfo;
+use super::{cfg::MAX_TOPIC_LEVELS, packetinfo::PacketInfo};
 use apiformes_packet::prelude::*;
 use std::collections::HashMap;
 use std::convert::TryInto;
@@ -170,6 +170,10 @@ impl Dispatcher {
                     continue;
                 }
             }
+            if topic.split('/').count() > MAX_TOPIC_LEVELS {
+                suback.add_reason_code(SubAckReasonCode::ImplementationSpecificError);
+                continue;
+            }
             if options.contains(SubscriptionOptions::NO_LOCAL) {
                 flags |= SubscriptionFlags::NO_LOCAL;
             }
-- 
2.43.0


From 6285a0cd883366b16c2a810122d8bc63808b9776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:54 +0000
Subject: [PATCH 20/25] fix: the encryption of a message is that of the
 connection it came in on

---
 server-lib/src/clients/clientworker.rs |  2 ++
 server-lib/src/dispatcher.rs           | 49 ++++++++++++--------------
 server-lib/src/packetinfo.rs           |  2 ++
 3 files changed, 27 insertions(+), 26 deletions(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 00c3578..d4467b3 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -56,6 +56,8 @@ impl ClientWorker {
                 let packet = p?;
                 let p = PacketInfo {
                     senderid: self.internals.clientid.clone(),
+                    #[cfg(feature = "noise")]
+                    encrypted: self.internals.encrypted,
                     packet,
                 };
                 self.incoming.send(p).await.
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 36fbf03..c588773 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -51,22 +51,16 @@ impl Dispatcher {
     }
 
     #[instrument(skip_all)]
-    async fn process_publish(&mut self, client: &str, publish: Publish) -> Result<(), ServerError> {
+    async fn process_publish(
+        &mut self,
+        client: &str,
+        #[cfg(feature = "noise")] encrypted: bool,
+        publish: Publish,
+    ) -> Result<(), ServerError> {
         trace!("Processing a publish packet");
+        // the channel the packet came in on: its client may be gone, or connected anew, by now
         #[cfg(feature = "noise")]
-        let strict_encryption = {
-            let clients = self.clients.read().await;
-            match clients.get(client) {
-                Some(c) => c.encrypted() && self.cfg.channel_permeability == Permeability::Strict,
-                None => {
-                    warn!(
-                        clientid = client,
-                        "Client Prematurely shutdown before its publish request could be processed"
-                    );
-                    return Ok(());
-                }
-            }
-        };
+        let strict_encryption = encrypted && self.cfg.channel_permeability == Permeability::Strict;
         match publish.qos() {
             QoS::QoS0 => (),
             QoS::QoS1 => return self.unimplemented(client).await,
@@ -198,13 +192,18 @@ impl Dispatcher {
         }
         Ok(())
     }
-    async fn process_packet(
-        &mut self,
-        client: Arc<str>,
-        packet: Packet,
-    ) -> Result<(), ServerError> {
-        match packet {
-            Packet::Publish(publish) => self.process_publish(&client, publish).await,
+    async fn process_packet(&mut self, packetinfo: PacketInfo) -> Result<(), ServerError> {
+        let client = packetinfo.senderid;
+        match packetinfo.packet {
+            Packet::Publish(publish) => {
+                self.process_publish(
+                    &client,
+                    #[cfg(feature = "noise")]
+                    packetinfo.encrypted,
+                    publish,
+                )
+                .await
+            }
             Packet::Subscribe(sub) => self.process_subscribe(&client, sub).await,
             _ => self.unimplemented(&client).await,
         }
@@ -218,11 +217,9 @@ impl Dispatcher {
                     break;
                 }
             };
-            if let Err(e) = self
-                .process_packet(packetinfo.senderid.clone(), packetinfo.packet)
-                .await
-            {
-                error!(clientid = &*packetinfo.senderid, "{:?}", e);
+            let senderid = packetinfo.senderid.clone();
+            if let Err(e) = self.process_packet(packetinfo).await {
+                error!(clientid = &*senderid, "{:?}", e);
             }
         }
     }
diff --git a/server-lib/src/packetinfo.rs b/server-lib/src/packetinfo.rs
index 6c7f51a..5d61b5d 100644
--- a/server-lib/src/packetinfo.rs
+++ b/server-lib/src/packetinfo.rs
@@ -3,5 +3,7 @@ use std::sync::Arc;
 
 pub struct PacketInfo {
     pub senderid: Arc<str>,
+    #[cfg(feature = "noise")]
+    pub encrypted: bool,
     pub packet: Packet,
 }
-- 
2.43.0


From 568dc9b8b32b6dc07c33dc755f3f85a5cdbce522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 21/25] fix: a connection that reuses a client identifier
 replaces the older one

---
 server-lib/src/clients/client.rs       |  4 ++++
 server-lib/src/clients/clientworker.rs |  4 ++--
 server-lib/src/clients/mod.rs          | 22 +++++++++++++++-------
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/server-lib/src/clients/client.rs b/server-lib/src/clients/client.rs
index d4fcf3c..458ef4a 100644
--- a/server-lib/src/clients/client.rs
+++ b/server-lib/src/clients/client.rs
@@ -44,6 +44,10 @@ impl Client {
     pub fn encrypted(&self) -> bool {
         self.encrypted
     }
+    /// Whether both belong to the same connection, not just the same client identifier
+    pub(super) fn same_connection(&self, other: &Client) -> bool {
+        Arc::ptr_eq(&self.killme, &other.killme)
+    }
     pub fn shutdown(self) {
         self.shutdown.notify_one();
     }
diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index d4467b3..246a728 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -93,7 +93,7 @@ impl ClientWorker {
         }
     }
     #[instrument(name = "ClientWorker::run", skip_all)]
-    pub(super) async fn run(mut self) -> Arc<str> {
+    pub(super) async fn run(mut self) -> Client {
         let shutdown = self.internals.shutdown.clone();
         let killme = self.internals.killme.clone();
         tokio::select! {
@@ -101,7 +101,7 @@ impl ClientWorker {
             _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => (),
         }
-        self.internals.clientid
+        self.internals
     }
 
     pub(super) fn internals(&self) -> &Client {
diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index 7a1222b..372f8d8 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -28,7 +28,7 @@ pub struct ClientManager {
     clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
     cfg: Arc<MqttServerConfig>,
     shutdown: Arc<Notify>,
-    workers: FuturesUnordered<JoinHandle<Arc<str>>>,
+    workers: FuturesUnordered<JoinHandle<Client>>,
 }
 
 impl ClientManager {
@@ -95,23 +95,31 @@ impl ClientManager {
             }
         };
         let client = worker.internals();
-        self.clients
+        let replaced = self
+            .clients
             .write()
             .await
             .insert(client.clientid.clone(), client.clone());
+        if let Some(old) = replaced {
+            old.killme();
+        }
         self.workers
             .push(tokio::spawn(async move { worker.run().await }));
         true
     }
-    async fn process_retiring_worker(&mut self, maybe_id: Option<Result<Arc<str>, JoinError>>) {
+    async fn process_retiring_worker(&mut self, retiring: Option<Result<Client, JoinError>>) {
         //TODO we don't remove the worker information from the topic file system yet
-        match maybe_id {
+        match retiring {
             Some(Err(e)) => error!(
                 "Failed joining one of the threads, possible orphan threads running, {:?}",
                 e
             ),
-            Some(Ok(id)) => {
-                self.clients.write().await.remove(&id);
+            Some(Ok(client)) => {
+                let mut clients = self.clients.write().await;
+                // a newer connection may have taken the identifier over
+                if matches!(clients.get(&client.clientid), Some(c) if c.same_connection(&client)) {
+                    clients.remove(&client.clientid);
+                }
             }
             None => (),
         };
@@ -132,7 +140,7 @@ impl ClientManager {
                 w = self.rx.recv() => if !self.process_new_worker(w).await {
                     break;
                 },
-                clientid = self.workers.next() => self.process_retiring_worker(clientid).await,
+                client = self.workers.next() => self.process_retiring_worker(client).await,
             };
         }
     }
-- 
2.43.0


From ab970875302a9d57f8891df105f3bad0dc238774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 22/25] fix: the subscriptions of a connection end with it

---
 server-lib/src/clients/mod.rs | 24 +++++++++++++++++-------
 server-lib/src/lib.rs         | 11 ++++++++---
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index 372f8d8..cc1dd59 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -4,7 +4,9 @@ mod mqttclient;
 #[cfg(feature = "noise")]
 mod noiseclient;
 
-use crate::{config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo};
+use crate::{
+    config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo, topics::TopicsTable,
+};
 pub use client::Client;
 use clientworker::ClientWorker;
 use futures::{stream::FuturesUnordered, StreamExt};
@@ -26,6 +28,7 @@ use tracing::{error, info, instrument, warn};
 pub struct ClientManager {
     rx: UnboundedReceiver<ClientWorker>,
     clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
+    topics: Arc<TopicsTable>,
     cfg: Arc<MqttServerConfig>,
     shutdown: Arc<Notify>,
     workers: FuturesUnordered<JoinHandle<Client>>,
@@ -35,12 +38,14 @@ impl ClientManager {
     fn new(
         cfg: Arc<MqttServerConfig>,
         clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
+        topics: Arc<TopicsTable>,
         shutdown: Arc<Notify>,
         rx: UnboundedReceiver<ClientWorker>,
     ) -> Self {
         ClientManager {
             rx,
             clients,
+            topics,
             cfg,
             shutdown,
             workers: FuturesUnordered::new(),
@@ -50,6 +55,7 @@ impl ClientManager {
     pub async fn start(
         cfg: Arc<MqttServerConfig>,
         clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
+        topics: Arc<TopicsTable>,
         shutdown: Arc<Notify>,
         incoming: Sender<PacketInfo>,
     ) -> Result<Vec<JoinHandle<()>>, ServerError> {
@@ -81,7 +87,7 @@ impl ClientManager {
             workers.push(handle)
         }
 
-        let man = ClientManager::new(cfg, clients, shutdown, rx);
+        let man = ClientManager::new(cfg, clients, topics, shutdown, rx);
         workers.push(man.start_processing().await);
         Ok(workers)
     }
@@ -101,6 +107,7 @@ impl ClientManager {
             .await
             .insert(client.clientid.clone(), client.clone());
         if let Some(old) = replaced {
+            self.topics.unsubscribe_all(old.clientid.clone()).await;
             old.killme();
         }
         self.workers
@@ -108,18 +115,21 @@ impl ClientManager {
         true
     }
     async fn process_retiring_worker(&mut self, retiring: Option<Result<Client, JoinError>>) {
-        //TODO we don't remove the worker information from the topic file system yet
         match retiring {
             Some(Err(e)) => error!(
                 "Failed joining one of the threads, possible orphan threads running, {:?}",
                 e
             ),
             Some(Ok(client)) => {
-                let mut clients = self.clients.write().await;
-                // a newer connection may have taken the identifier over
-                if matches!(clients.get(&client.clientid), Some(c) if c.same_connection(&client)) {
-                    clients.remove(&client.clientid);
+                {
+                    let mut clients = self.clients.write().await;
+                    // a newer connection may have taken the identifier over
+                    match clients.get(&client.clientid) {
+                        Some(c) if c.same_connection(&client) => clients.remove(&client.clientid),
+                        _ => return,
+                    };
                 }
+                self.topics.unsubscribe_all(client.clientid).await;
             }
             None => (),
         };
diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index 783e391..933a73c 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -37,10 +37,15 @@ impl MqttServer {
         let shutdown = Arc::new(Notify::new());
         let cfg = Arc::new(cfg);
         let clients = Arc::new(RwLock::new(HashMap::new()));
-        let mut workers =
-            ClientManager::start(cfg.clone(), clients.clone(), shutdown.clone(), incoming_tx)
-                .await?;
         let topics = Arc::new(TopicsTable::new());
+        let mut workers = ClientManager::start(
+            cfg.clone(),
+            clients.clone(),
+            topics.clone(),
+            shutdown.clone(),
+            incoming_tx,
+        )
+        .await?;
         let dispatcher = Dispatcher::new(
             topics.clone(),
             cfg.clone(),
-- 
2.43.0


From 6927163483262ba76073bd6d1ea2835a432cf96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 23/25] fix: a refusal is not larger than what the client
 accepts either

---
 server-lib/src/clients/clientworker.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 246a728..15dcb5f 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -134,6 +134,13 @@ impl ClientWorker {
     }
     #[instrument(name = "ClientWorker::process_connect", skip_all)]
     async fn process_connect(&mut self, connect: Connect) -> Result<(), ServerError> {
+        // refusals must not be larger than what the client accepts either
+        if let Some([max_packet_size, ..]) = connect.get_prop(Property::MaximumPacketSize) {
+            self.internals.max_packet_size = self
+                .internals
+                .max_packet_size
+                .min(max_packet_size.into_u32().unwrap());
+        }
         if connect.username().is_some() {
             error!("Client attempted using username for authentication which is not supported");
             return self.unimplemented().await;
@@ -156,10 +163,7 @@ impl ClientWorker {
                     self.internals.session_expirary = v.into_u32().unwrap()
                 }
                 Property::ReceiveMaximum => self.internals.recv_max = v.into_u16().unwrap(),
-                Property::MaximumPacketSize => {
-                    self.internals.max_packet_size =
-                        self.internals.max_packet_size.min(v.into_u32().unwrap())
-                }
+                Property::MaximumPacketSize => (),
                 Property::TopicAliasMaximum => {
                     self.internals.topic_alias_max = v.into_u16().unwrap()
                 }
-- 
2.43.0


From a439bbb4ddb1845d489a28f276db1b03651cb56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 24/25] fix: wildcard subscriptions are announced as available

---
 server-lib/src/cfg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-lib/src/cfg.rs b/server-lib/src/cfg.rs
index ddff27a..5e5496f 100644
--- a/server-lib/src/cfg.rs
+++ b/server-lib/src/cfg.rs
@@ -2,7 +2,7 @@ pub const MAX_QOS: u8 = 0;
 /// Topic filters with more levels are refused, visiting topics is recursive
 pub const MAX_TOPIC_LEVELS: usize = 128;
 pub const TOPIC_ALIAS_MAX: u16 = 0;
-pub const WILDCARD_SUB: bool = false;
+pub const WILDCARD_SUB: bool = true;
 pub const SUB_ID: bool = false;
 pub const SHARED_SUB: bool = false;
 /// Nothing sent during the handshake is longer than this
-- 
2.43.0


From 12de931b391efb20fb3cb2009ce608b83ce38028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:41 +0000
Subject: [PATCH 25/25] fix: the benchmark client ends once the server has
 closed the connection

---
 bm/src/client.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bm/src/client.rs b/bm/src/client.rs
index 859fd2f..c13770c 100644
--- a/bm/src/client.rs
+++ b/bm/src/client.rs
@@ -1,7 +1,6 @@
 use apiformes_packet::prelude::*;
 use bytes::{Buf, BytesMut};
-use std::io::Cursor;
-use std::io::Result;
+use std::io::{Cursor, ErrorKind, Result};
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 use tokio::net::{TcpStream, ToSocketAddrs};
 
@@ -30,7 +29,11 @@ impl Client {
                 Err(DataParseError::InsufficientBuffer {
                     needed: _,
                     available: _,
-                }) => self.stream.read_buf(&mut self.recv_bytes).await?,
+                }) => {
+                    if self.stream.read_buf(&mut self.recv_bytes).await? == 0 {
+                        return Err(ErrorKind::UnexpectedEof.into());
+                    }
+                }
                 Err(e) => panic!("{:?}", e),
             };
         }
-- 
2.43.0

