From 8b91ea9accf79a055c5323a3ef592b57e2e1a0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 01/20] Hooks for runtime monitors, compiled only with --cfg
 rtps_verif

---
 src/behavior/reader_locator.rs   | 13 ++++++++
 src/behavior/stateful_writer.rs  | 17 ++++++++++
 src/behavior/stateless_writer.rs | 53 ++++++++++++++++++++++++++++++
 src/lib.rs                       |  6 ++++
 src/messages/receiver.rs         |  8 +++++
 src/structure/history_cache.rs   | 29 +++++++++++++++++
 src/verif_hooks.rs               | 56 ++++++++++++++++++++++++++++++++
 7 files changed, 182 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/behavior/reader_locator.rs b/src/behavior/reader_locator.rs
index 7a3593e..d09cbfd 100644
--- a/src/behavior/reader_locator.rs
+++ b/src/behavior/reader_locator.rs
@@ -49,3 +49,16 @@ impl ReaderLocator {
         unimplemented!();
     }
 }
+
+#[cfg(rtps_verif_endpoints)]
+impl ReaderLocator {
+    /// Constructor for external runtime monitors (`new` is not implemented).
+    pub fn verif_new(locator: Locator_t, expects_inline_qos: bool) -> Self {
+        ReaderLocator {
+            requested_changes: Vec::new(),
+            unsent_changes: Vec::new(),
+            locator,
+            expects_inline_qos,
+        }
+    }
+}
diff --git a/src/behavior/stateful_writer.rs b/src/behavior/stateful_writer.rs
index 4efabfe..16fc165 100644
--- a/src/behavior/stateful_writer.rs
+++ b/src/behavior/stateful_writer.rs
@@ -76,5 +76,22 @@ impl StatefulWriter {
     }
 }
 
+#[cfg(rtps_verif_endpoints)]
+impl StatefulWriter {
+    /// Constructor for external runtime monitors (`new` is not implemented).
+    pub fn verif_new(
+        entity: EntityAttributes,
+        endpoint: EndpointAttributes,
+        writer: WriterAttributes,
+    ) -> Self {
+        StatefulWriter {
+            matched_readers: Vec::new(),
+            entity,
+            endpoint,
+            writer,
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {}
diff --git a/src/behavior/stateless_writer.rs b/src/behavior/stateless_writer.rs
index 1b8a49f..9c1d138 100644
--- a/src/behavior/stateless_writer.rs
+++ b/src/behavior/stateless_writer.rs
@@ -95,5 +95,58 @@ impl StatelessWriter {
     }
 }
 
+/// Public face of the writer for external runtime monitors.
+#[cfg(rtps_verif)]
+pub mod verif {
+    use super::*;
+
+    pub struct MonitoredStatelessWriter(StatelessWriter);
+
+    impl MonitoredStatelessWriter {
+        pub fn new(
+            entity_attributes: EntityAttributes,
+            endpoint_attributes: EndpointAttributes,
+            writer_attributes: WriterAttributes,
+            resend_data_period: Time_t,
+        ) -> Self {
+            MonitoredStatelessWriter(StatelessWriter::new(
+                entity_attributes,
+                endpoint_attributes,
+                writer_attributes,
+                resend_data_period,
+            ))
+        }
+        pub fn new_change(
+            &mut self,
+            kind: ChangeKind_t,
+            data: Data,
+            handle: InstanceHandle_t,
+        ) -> CacheChange {
+            self.0.new_change(kind, data, handle)
+        }
+        pub fn as_entity(&self) -> &EntityAttributes {
+            self.0.as_entity()
+        }
+        pub fn as_endpoint(&self) -> &EndpointAttributes {
+            self.0.as_endpoint()
+        }
+        pub fn as_writer(&self) -> &WriterAttributes {
+            self.0.as_writer()
+        }
+        #[cfg(rtps_verif_endpoints)]
+        pub fn reader_locator_add(&mut self, a_locator: ReaderLocator) {
+            self.0.reader_locator_add(a_locator)
+        }
+        #[cfg(rtps_verif_endpoints)]
+        pub fn reader_locator_remove(&mut self, a_locator: ReaderLocator) {
+            self.0.reader_locator_remove(a_locator)
+        }
+        #[cfg(rtps_verif_endpoints)]
+        pub fn reader_locators(&self) -> &[ReaderLocator] {
+            &self.0.reader_locators
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {}
diff --git a/src/lib.rs b/src/lib.rs
index 8489566..5242757 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,7 @@
 #![allow(dead_code)]
 #![allow(non_camel_case_types)]
 #![allow(non_upper_case_globals)]
+#![allow(unexpected_cfgs)]
 
 extern crate bit_set;
 extern crate bit_vec;
@@ -20,3 +21,8 @@ mod dds;
 mod discovery;
 mod messages;
 mod structure;
+
+/// Re-exports for external runtime monitors; compiled only with
+/// `--cfg rtps_verif`.
+#[cfg(rtps_verif)]
+pub mod verif_hooks;
diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 3b621dd..60f1839 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -291,6 +291,14 @@ impl Decoder for MessageReceiver {
     }
 }
 
+#[cfg(rtps_verif)]
+impl MessageReceiver {
+    /// Interpretation context, for external runtime monitors.
+    pub fn verif_context(&self) -> &Receiver {
+        &self.receiver
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use speedy::Writable;
diff --git a/src/structure/history_cache.rs b/src/structure/history_cache.rs
index 743d6d8..992cccc 100644
--- a/src/structure/history_cache.rs
+++ b/src/structure/history_cache.rs
@@ -42,6 +42,35 @@ impl HistoryCache {
     }
 }
 
+/// Public face of the cache for external runtime monitors.
+#[cfg(rtps_verif)]
+pub mod verif {
+    use super::*;
+
+    pub struct MonitoredHistoryCache(HistoryCache);
+
+    impl MonitoredHistoryCache {
+        pub fn new() -> Self {
+            MonitoredHistoryCache(HistoryCache::new())
+        }
+        pub fn add_change(&mut self, change: CacheChange) {
+            self.0.add_change(change);
+        }
+        pub fn get_change(&self, sequence_number: SequenceNumber_t) -> Option<&CacheChange> {
+            self.0.get_change(sequence_number)
+        }
+        pub fn remove_change(&mut self, sequence_number: SequenceNumber_t) {
+            self.0.remove_change(sequence_number);
+        }
+        pub fn get_seq_num_min(&self) -> Option<SequenceNumber_t> {
+            self.0.get_seq_num_min().map(|x| x.to_owned())
+        }
+        pub fn get_seq_num_max(&self) -> Option<SequenceNumber_t> {
+            self.0.get_seq_num_max().map(|x| x.to_owned())
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..ef9fd14
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,56 @@
+//! Names needed by external runtime monitors. The crate keeps its modules
+//! private; this module re-exports items without adding behaviour.
+
+pub use crate::behavior::reader_locator::ReaderLocator;
+pub use crate::behavior::reader_proxy::ReaderProxy;
+pub use crate::behavior::stateful_writer::StatefulWriter;
+pub use crate::behavior::stateless_writer::verif::MonitoredStatelessWriter;
+pub use crate::behavior::writer::WriterAttributes;
+pub use crate::common::bit_set::BitSetRef;
+pub use crate::common::ranged_bit_set::RangedBitSet;
+pub use crate::common::validity_trait::Validity;
+pub use crate::messages::ack_nack::AckNack;
+pub use crate::messages::fragment_number::FragmentNumber_t;
+pub use crate::messages::fragment_number_set::FragmentNumberSet_t;
+pub use crate::messages::gap::Gap;
+pub use crate::messages::header::Header;
+pub use crate::messages::heartbeat::Heartbeat;
+pub use crate::messages::heartbeat_frag::HeartbeatFrag;
+pub use crate::messages::info_destination::InfoDestination;
+pub use crate::messages::info_source::InfoSource;
+pub use crate::messages::nack_frag::NackFrag;
+pub use crate::messages::protocol_id::ProtocolId_t;
+pub use crate::messages::protocol_version::ProtocolVersion_t;
+pub use crate::messages::receiver::{MessageReceiver, Receiver};
+pub use crate::messages::submessage::EntitySubmessage;
+pub use crate::messages::submessage_elements::parameter::Parameter;
+pub use crate::messages::submessage_flag::SubmessageFlag;
+pub use crate::messages::submessage_header::SubmessageHeader;
+pub use crate::messages::submessage_kind::SubmessageKind;
+pub use crate::messages::vendor_id::VendorId_t;
+pub use crate::structure::cache_change::CacheChange;
+pub use crate::structure::change_kind::ChangeKind_t;
+pub use crate::structure::count::Count_t;
+pub use crate::structure::data::Data;
+pub use crate::structure::duration::Duration_t;
+pub use crate::structure::endpoint::EndpointAttributes;
+pub use crate::structure::entity::EntityAttributes;
+pub use crate::structure::entity_id::EntityId_t;
+pub use crate::structure::guid::GUID_t;
+pub use crate::structure::guid_prefix::GuidPrefix_t;
+pub use crate::structure::history_cache::verif::MonitoredHistoryCache;
+pub use crate::structure::instance_handle::InstanceHandle_t;
+pub use crate::structure::locator::{LocatorList_t, Locator_t};
+pub use crate::structure::locator_kind::LocatorKind_t;
+pub use crate::structure::locator_udp_v4::LocatorUDPv4_t;
+pub use crate::structure::parameter_id::ParameterId;
+pub use crate::structure::reliability_kind::ReliabilityKind_t;
+pub use crate::structure::sequence_number::SequenceNumber_t;
+pub use crate::structure::sequence_number_set::SequenceNumberSet_t;
+pub use crate::structure::time::Time_t;
+pub use crate::structure::topic_kind::TopicKind_t;
+
+#[cfg(rtps_verif_endpoints)]
+pub use crate::behavior::writer::Writer;
+#[cfg(rtps_verif_endpoints)]
+pub use crate::structure::{endpoint::Endpoint, entity::Entity};
-- 
2.43.0


From 8564c4e038d088910f31e0a20761e779066d76fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 02/20] fix: take each header and submessage off the buffer as
 a whole

Short input made split_to panic; bodies of unknown submessages and of
INFO_TS with the invalidate flag were left in the buffer and read as the next
submessage header. Wait until the element is complete, then parse it from
its own slice.
---
 src/messages/receiver.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 60f1839..ba73de0 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -73,6 +73,24 @@ impl MessageReceiver {
             state: DeserializationState::ReadingHeader,
         }
     }
+
+    /// Length of the message header or whole submessage the bytes start with,
+    /// or None as long as some of it is missing
+    fn complete_length(&self, bytes: &BytesMut) -> Option<usize> {
+        let length = match self.state {
+            DeserializationState::ReadingHeader => {
+                <Header as Readable<Endianness>>::minimum_bytes_needed()
+            }
+            DeserializationState::ReadingSubmessage => {
+                let submessage_header =
+                    SubmessageHeader::read_from_buffer_with_ctx(Endianness::NATIVE, bytes).ok()?;
+                <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed()
+                    + usize::from(submessage_header.submessage_length)
+            }
+        };
+
+        Some(length).filter(|length| *length <= bytes.len())
+    }
 }
 
 impl Decoder for MessageReceiver {
@@ -80,6 +98,11 @@ impl Decoder for MessageReceiver {
     type Error = std::io::Error;
 
     fn decode(&mut self, bytes: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        let mut bytes = match self.complete_length(bytes) {
+            Some(length) => bytes.split_to(length),
+            None => return Ok(None),
+        };
+
         let validate_header = |header: Header| {
             if header.valid() {
                 Ok(header)
-- 
2.43.0


From b5b30138f968d01c6446eab51de047ef15a9c580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 03/20] fix: let a last submessage of length zero extend to the
 end of the message

Its contents were parsed from an empty slice, so it always failed, and its
bytes were left in the buffer.
---
 src/messages/receiver.rs          | 33 ++++++++++++++-----------------
 src/messages/submessage_header.rs | 10 ++++++++++
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index ba73de0..3252589 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -84,8 +84,12 @@ impl MessageReceiver {
             DeserializationState::ReadingSubmessage => {
                 let submessage_header =
                     SubmessageHeader::read_from_buffer_with_ctx(Endianness::NATIVE, bytes).ok()?;
-                <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed()
-                    + usize::from(submessage_header.submessage_length)
+                if submessage_header.is_last() {
+                    bytes.len()
+                } else {
+                    <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed()
+                        + usize::from(submessage_header.submessage_length)
+                }
             }
         };
 
@@ -141,10 +145,7 @@ impl Decoder for MessageReceiver {
                     ),
                 )
                 .and_then(|submessage_header| {
-                    if submessage_header.submessage_length == 0
-                        && submessage_header.submessage_id != SubmessageKind::INFO_TS
-                        && submessage_header.submessage_id != SubmessageKind::PAD
-                    {
+                    if submessage_header.is_last() {
                         // This is a last submessage
                         self.state = DeserializationState::ReadingHeader;
                     }
@@ -154,7 +155,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::ACKNACK => {
                         let ack_nack = AckNack::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
                         Ok(Some(EntitySubmessage::AckNack(
                             ack_nack,
@@ -170,14 +171,14 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::GAP => {
                         let gap = Gap::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
                         Ok(Some(EntitySubmessage::Gap(gap)))
                     }
                     SubmessageKind::NACK_FRAG => {
                         let nack_frag = NackFrag::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
 
                         Ok(Some(EntitySubmessage::NackFrag(nack_frag)))
@@ -185,7 +186,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::HEARTBEAT => {
                         let heartbeat = Heartbeat::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
 
                         Ok(Some(EntitySubmessage::Heartbeat(
@@ -196,7 +197,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::HEARTBEAT_FRAG => {
                         let heartbeat_frag = HeartbeatFrag::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
 
                         Ok(Some(EntitySubmessage::HeartbeatFrag(heartbeat_frag)))
@@ -204,7 +205,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::INFO_SRC => {
                         let info_src = InfoSource::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
                         self.receiver.source_guid_prefix = info_src.guid_prefix;
                         self.receiver.source_version = info_src.protocol_version;
@@ -219,7 +220,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::INFO_DST => {
                         let info_dst = InfoDestination::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
 
                         if info_dst.guid_prefix != GuidPrefix_t::GUIDPREFIX_UNKNOWN {
@@ -229,7 +230,6 @@ impl Decoder for MessageReceiver {
                         Ok(None)
                     }
                     SubmessageKind::INFO_REPLAY => {
-                        let mut bytes = bytes.split_to(submessage_header.submessage_length.into());
                         let (unicast_locator_list, read_bytes) =
                             LocatorList_t::read_with_length_from_buffer_with_ctx(
                                 submessage_header.flags.endianness_flag(),
@@ -256,7 +256,6 @@ impl Decoder for MessageReceiver {
                         Ok(None)
                     }
                     SubmessageKind::INFO_REPLAY_IP4 => {
-                        let mut bytes = bytes.split_to(submessage_header.submessage_length.into());
                         let unicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
                             submessage_header.flags.endianness_flag(),
                             &bytes.split_to(
@@ -285,7 +284,7 @@ impl Decoder for MessageReceiver {
                         if !submessage_header.flags.is_flag_set(0x02) {
                             let timestamp = Time_t::read_from_buffer_owned_with_ctx(
                                 submessage_header.flags.endianness_flag(),
-                                &bytes.split_to(submessage_header.submessage_length.into()),
+                                &bytes,
                             )?;
                             self.receiver.have_timestamp = true;
                             self.receiver.timestamp = timestamp;
@@ -296,8 +295,6 @@ impl Decoder for MessageReceiver {
                         Ok(None)
                     }
                     SubmessageKind::PAD => {
-                        use crate::bytes::Buf;
-                        bytes.advance(submessage_header.submessage_length.into());
                         Ok(None)
                     }
                     _ => {
diff --git a/src/messages/submessage_header.rs b/src/messages/submessage_header.rs
index c4b5fe6..010dc95 100644
--- a/src/messages/submessage_header.rs
+++ b/src/messages/submessage_header.rs
@@ -9,6 +9,16 @@ pub struct SubmessageHeader {
     pub submessage_length: u16,
 }
 
+impl SubmessageHeader {
+    /// A length of zero means an empty body for PAD and INFO_TS. Any other
+    /// submessage is then the last one and extends to the end of the message.
+    pub fn is_last(&self) -> bool {
+        self.submessage_length == 0
+            && self.submessage_id != SubmessageKind::INFO_TS
+            && self.submessage_id != SubmessageKind::PAD
+    }
+}
+
 impl<'a, C: Context> Readable<'a, C> for SubmessageHeader {
     #[inline]
     fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
-- 
2.43.0


From 89aad5a9012239678b5d0608782c91fa59a700db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 04/20] fix: report an INFO_REPLY_IP4 that is too short instead
 of panicking

---
 src/messages/receiver.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 3252589..ca5d906 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -256,22 +256,20 @@ impl Decoder for MessageReceiver {
                         Ok(None)
                     }
                     SubmessageKind::INFO_REPLAY_IP4 => {
-                        let unicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
-                            submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(
-                                <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(),
-                            ),
-                        )?;
+                        let (unicast_locator, read_bytes) =
+                            LocatorUDPv4_t::read_with_length_from_buffer_with_ctx(
+                                submessage_header.flags.endianness_flag(),
+                                &bytes,
+                            );
+                        let unicast_locator = unicast_locator?;
+                        let bytes = bytes.split_off(read_bytes);
                         self.receiver.unicast_reply_locator_list = vec![unicast_locator.into()];
 
                         self.receiver.multicast_reply_locator_list =
                             if submessage_header.flags.is_flag_set(0x02) {
                                 let multicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
                                 submessage_header.flags.endianness_flag(),
-                                &bytes.split_to(
-                                    <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(
-                                    ),
-                                ),
+                                &bytes,
                             )?;
                                 vec![multicast_locator.into()]
                             } else {
-- 
2.43.0


From 773e62fcffc0e7ec785551e94b15f57dc3ff1093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 05/20] fix: leave the reply locators alone when an INFO_REPLY
 fails half-way

The unicast list was replaced before the multicast list was known to be
readable.
---
 src/messages/receiver.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index ca5d906..2081e69 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -235,7 +235,7 @@ impl Decoder for MessageReceiver {
                                 submessage_header.flags.endianness_flag(),
                                 &bytes,
                             );
-                        self.receiver.unicast_reply_locator_list = unicast_locator_list?;
+                        let unicast_locator_list = unicast_locator_list?;
 
                         use crate::bytes::Buf;
                         let mut bytes = bytes.split_off(read_bytes);
@@ -252,6 +252,7 @@ impl Decoder for MessageReceiver {
                             } else {
                                 vec![]
                             };
+                        self.receiver.unicast_reply_locator_list = unicast_locator_list;
 
                         Ok(None)
                     }
@@ -263,8 +264,6 @@ impl Decoder for MessageReceiver {
                             );
                         let unicast_locator = unicast_locator?;
                         let bytes = bytes.split_off(read_bytes);
-                        self.receiver.unicast_reply_locator_list = vec![unicast_locator.into()];
-
                         self.receiver.multicast_reply_locator_list =
                             if submessage_header.flags.is_flag_set(0x02) {
                                 let multicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
@@ -275,6 +274,7 @@ impl Decoder for MessageReceiver {
                             } else {
                                 vec![]
                             };
+                        self.receiver.unicast_reply_locator_list = vec![unicast_locator.into()];
 
                         Ok(None)
                     }
-- 
2.43.0


From aa6d76b2133b5efde7ae667d3163f78a2b44bcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 06/20] fix: an INFO_DST with the unknown prefix addresses the
 receiving participant again

It was ignored, so submessages meant for this participant kept the
destination of an earlier INFO_DST.
---
 src/messages/receiver.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 2081e69..3280161 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -223,9 +223,8 @@ impl Decoder for MessageReceiver {
                             &bytes,
                         )?;
 
-                        if info_dst.guid_prefix != GuidPrefix_t::GUIDPREFIX_UNKNOWN {
-                            self.receiver.dest_guid_prefix = info_dst.guid_prefix;
-                        }
+                        // GUIDPREFIX_UNKNOWN restores the initial destination
+                        self.receiver.dest_guid_prefix = info_dst.guid_prefix;
 
                         Ok(None)
                     }
-- 
2.43.0


From f6ba45df9f2331d298d5e5d9b26b3a6e0a227c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 07/20] fix: start every message from the initial receiver
 state

Destination, reply locators and timestamp of the previous message applied to
the next one.
---
 src/messages/receiver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 3280161..d894aa7 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -62,6 +62,7 @@ enum DeserializationState {
 }
 
 pub struct MessageReceiver {
+    locator_kind: LocatorKind_t,
     receiver: Receiver,
     state: DeserializationState,
 }
@@ -69,6 +70,7 @@ pub struct MessageReceiver {
 impl MessageReceiver {
     pub fn new(locator_kind: LocatorKind_t) -> Self {
         MessageReceiver {
+            locator_kind,
             receiver: Receiver::new(locator_kind),
             state: DeserializationState::ReadingHeader,
         }
@@ -122,10 +124,10 @@ impl Decoder for MessageReceiver {
             )
             .and_then(validate_header)
             .and_then(|header: Header| {
+                self.receiver = Receiver::new(self.locator_kind);
                 self.receiver.source_guid_prefix = header.guid_prefix;
                 self.receiver.source_version = header.protocol_version;
                 self.receiver.source_vendor_id = header.vendor_id;
-                self.receiver.have_timestamp = false;
 
                 self.state = DeserializationState::ReadingSubmessage;
                 Ok(None)
-- 
2.43.0


From e57fec9b10328ceee9de0c4c0445c431261df47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 08/20] fix: decode up to the next item instead of asking for
 bytes already there

Decoder::decode returned None after a header or INFO submessage, so a framed
reader waited for more bytes, or failed at the end of the stream, although
complete submessages were buffered.
---
 src/messages/receiver.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index d894aa7..6760cd7 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -97,13 +97,9 @@ impl MessageReceiver {
 
         Some(length).filter(|length| *length <= bytes.len())
     }
-}
-
-impl Decoder for MessageReceiver {
-    type Item = EntitySubmessage;
-    type Error = std::io::Error;
 
-    fn decode(&mut self, bytes: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+    /// Handles one message header or submessage
+    fn decode_next(&mut self, bytes: &mut BytesMut) -> Result<Option<EntitySubmessage>, Error> {
         let mut bytes = match self.complete_length(bytes) {
             Some(length) => bytes.split_to(length),
             None => return Ok(None),
@@ -310,6 +306,22 @@ impl Decoder for MessageReceiver {
     }
 }
 
+impl Decoder for MessageReceiver {
+    type Item = EntitySubmessage;
+    type Error = std::io::Error;
+
+    fn decode(&mut self, bytes: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        loop {
+            let length = bytes.len();
+            let item = self.decode_next(bytes)?;
+            // None asks for more bytes only if none could be used
+            if item.is_some() || bytes.len() == length {
+                return Ok(item);
+            }
+        }
+    }
+}
+
 #[cfg(rtps_verif)]
 impl MessageReceiver {
     /// Interpretation context, for external runtime monitors.
-- 
2.43.0


From 90386b73dac9830f9f1a4fdbd76952571a9edd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 09/20] fix: keep the length of a decoded bit set

Its length stayed zero, so a decoded number set iterated as empty and lost its
members on the next insertion.
---
 src/common/bit_set.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/bit_set.rs b/src/common/bit_set.rs
index 177ca66..a8fab4c 100644
--- a/src/common/bit_set.rs
+++ b/src/common/bit_set.rs
@@ -42,6 +42,11 @@ impl<'a, C: Context> Readable<'a, C> for BitSetRef {
             for _ in 0..number_of_bytes {
                 inner.push(reader.read_u32()?);
             }
+            // BitVec requires the bits beyond its length to be zero
+            if let (Some(last), true) = (inner.last_mut(), number_of_bits % 32 != 0) {
+                *last &= (1 << (number_of_bits % 32)) - 1;
+            }
+            bit_vec.set_len(number_of_bits as usize);
         }
 
         Ok(BitSetRef(BitSet::from_bit_vec(bit_vec)))
-- 
2.43.0


From 04e5b9b04775f923ea0ffdadee634dcb75682fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 10/20] fix: refuse number sets that claim more than 256 bits

The claimed bit count was used for an allocation of up to 512 MiB and
overflowed when rounded up.
---
 src/common/bit_set.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/bit_set.rs b/src/common/bit_set.rs
index a8fab4c..f9a3aa1 100644
--- a/src/common/bit_set.rs
+++ b/src/common/bit_set.rs
@@ -1,8 +1,11 @@
 use bit_set::BitSet;
 use bit_vec::BitVec;
-use speedy::{Context, Readable, Reader, Writable, Writer};
+use speedy::{Context, Error, Readable, Reader, Writable, Writer};
 use std::ops::{Deref, DerefMut};
 
+/// Number sets are limited to 256 numbers
+const MAX_NUMBER_OF_BITS: u32 = 256;
+
 #[derive(Debug, PartialEq)]
 pub struct BitSetRef(BitSet<u32>);
 
@@ -34,6 +37,9 @@ impl<'a, C: Context> Readable<'a, C> for BitSetRef {
     #[inline]
     fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
         let number_of_bits = reader.read_u32()?;
+        if number_of_bits > MAX_NUMBER_OF_BITS {
+            return Err(Error::custom("Number set of more than 256 bits").into());
+        }
         let number_of_bytes = (number_of_bits + 31) / 32;
 
         let mut bit_vec = BitVec::with_capacity(number_of_bits as usize);
-- 
2.43.0


From dfda38cdf7d42c6cc56161bf8e7524f0bfd46e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 11/20] fix: end the iteration of a number set at the largest
 number instead of panicking

---
 src/common/ranged_bit_set.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/ranged_bit_set.rs b/src/common/ranged_bit_set.rs
index 2430387..8762509 100644
--- a/src/common/ranged_bit_set.rs
+++ b/src/common/ranged_bit_set.rs
@@ -51,7 +51,8 @@ where
                 None => return None,
                 Some((_, false)) => {}
                 Some((i, true)) => {
-                    return Some(B::from_usize(i).unwrap().checked_add(&self.base).unwrap());
+                    // Positions beyond the largest number denote nothing
+                    return B::from_usize(i)?.checked_add(&self.base);
                 }
             }
         }
-- 
2.43.0


From a2470ffaa4e6f91ea8d03ed68f99547884b73c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 12/20] fix: declare the size of a locator so that list lengths
 can be checked

Without it a locator list was allocated for whatever length it claimed, up to
100 GB for a four byte input.
---
 src/structure/locator.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/structure/locator.rs b/src/structure/locator.rs
index ad64bb0..dd3a1df 100644
--- a/src/structure/locator.rs
+++ b/src/structure/locator.rs
@@ -88,6 +88,13 @@ impl<'a, C: Context> Readable<'a, C> for Locator_t {
         }
         Ok(locator)
     }
+
+    #[inline]
+    fn minimum_bytes_needed() -> usize {
+        <LocatorKind_t as Readable<C>>::minimum_bytes_needed()
+            + <u32 as Readable<C>>::minimum_bytes_needed()
+            + Locator_t::LOCATOR_ADDRESS_INVALID.len()
+    }
 }
 
 impl<C: Context> Writable<C> for Locator_t {
-- 
2.43.0


From 55c458fd9ddd53beb7f9c82e4266eb3a6804f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 13/20] fix: do not turn a locator port beyond 65535 into some
 other port

---
 src/structure/locator.rs        | 11 ++++++++---
 src/structure/locator_udp_v4.rs |  4 +++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/structure/locator.rs b/src/structure/locator.rs
index dd3a1df..cf9ecb2 100644
--- a/src/structure/locator.rs
+++ b/src/structure/locator.rs
@@ -1,7 +1,10 @@
 use crate::structure::locator_udp_v4::LocatorUDPv4_t;
 use speedy::{Context, Readable, Reader, Writable, Writer};
 pub use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
-use std::{convert::From, net::SocketAddrV4};
+use std::{
+    convert::{From, TryFrom},
+    net::SocketAddrV4,
+};
 
 pub use crate::structure::locator_kind::LocatorKind_t;
 
@@ -52,6 +55,8 @@ impl From<SocketAddr> for Locator_t {
 
 impl From<Locator_t> for SocketAddr {
     fn from(locator: Locator_t) -> Self {
+        // There is no such port beyond the range of u16
+        let port = u16::try_from(locator.port).unwrap_or(0);
         match locator.kind {
             LocatorKind_t::LOCATOR_KIND_UDPv4 => SocketAddr::new(
                 IpAddr::V4(Ipv4Addr::new(
@@ -60,11 +65,11 @@ impl From<Locator_t> for SocketAddr {
                     locator.address[14],
                     locator.address[15],
                 )),
-                locator.port as u16,
+                port,
             ),
             LocatorKind_t::LOCATOR_KIND_UDPv6 => SocketAddr::new(
                 IpAddr::V6(Ipv6Addr::from(locator.address)),
-                locator.port as u16,
+                port,
             ),
             _ => SocketAddr::new(IpAddr::V6(Ipv6Addr::UNSPECIFIED), 0),
         }
diff --git a/src/structure/locator_udp_v4.rs b/src/structure/locator_udp_v4.rs
index e47e448..2c11b36 100644
--- a/src/structure/locator_udp_v4.rs
+++ b/src/structure/locator_udp_v4.rs
@@ -1,4 +1,5 @@
 use speedy::{Readable, Writable};
+use std::convert::TryFrom;
 use std::net::{Ipv4Addr, SocketAddrV4};
 
 /// Specialization of Locator_t used to hold UDP IPv4 locators using a more
@@ -34,7 +35,8 @@ impl From<LocatorUDPv4_t> for SocketAddrV4 {
     fn from(locator_udp_v4: LocatorUDPv4_t) -> Self {
         SocketAddrV4::new(
             Ipv4Addr::from(locator_udp_v4.address),
-            locator_udp_v4.port as u16,
+            // There is no such port beyond the range of u16
+            u16::try_from(locator_udp_v4.port).unwrap_or(0),
         )
     }
 }
-- 
2.43.0


From ccc4d7db6218e8fee23acf3a255b19dad0f527ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 14/20] fix: treat times that do not fit a timestamp as invalid

System times after 2038 wrapped to some earlier or negative time, and
converting a negative timestamp overflowed.
---
 src/structure/time.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/structure/time.rs b/src/structure/time.rs
index 052331f..676540d 100644
--- a/src/structure/time.rs
+++ b/src/structure/time.rs
@@ -37,10 +37,12 @@ impl From<SystemTime> for Time_t {
             .duration_since(std::time::UNIX_EPOCH)
             .and_then(|dur_since_epoch| {
                 let fraction = (i64::from(dur_since_epoch.subsec_nanos()) << 32) / NANOS_PER_SEC;
-                Ok(Time_t {
-                    seconds: dur_since_epoch.as_secs() as i32,
-                    fraction: fraction as u32,
-                })
+                Ok(i32::try_from(dur_since_epoch.as_secs())
+                    .map(|seconds| Time_t {
+                        seconds,
+                        fraction: fraction as u32,
+                    })
+                    .unwrap_or(Time_t::TIME_INVALID))
             })
             .unwrap_or(Time_t::TIME_INVALID)
     }
@@ -52,6 +54,7 @@ impl TryFrom<Time_t> for SystemTime {
     fn try_from(time: Time_t) -> Result<Self, Self::Error> {
         match time {
             Time_t::TIME_INVALID => Err("Conversion from Time_t::TIME_INVALID"),
+            _ if time.seconds < 0 => Err("Conversion from a negative Time_t"),
             _ => {
                 let fraction = (i64::from(time.fraction) * NANOS_PER_SEC) >> 32;
                 Ok(std::time::UNIX_EPOCH + Duration::new(time.seconds as u64, fraction as u32))
-- 
2.43.0


From 9d6cdfd91585f121256080309563abf26f5e6a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 15/20] fix: saturate durations that cannot be represented

More than i32::MAX seconds wrapped to some other duration, and converting a
negative or the invalid duration panicked.
---
 src/structure/duration.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/structure/duration.rs b/src/structure/duration.rs
index 0246417..0df3894 100644
--- a/src/structure/duration.rs
+++ b/src/structure/duration.rs
@@ -1,5 +1,5 @@
 use speedy::{Readable, Writable};
-use std::convert::From;
+use std::convert::{From, TryFrom};
 use std::time::Duration;
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Readable, Writable)]
@@ -25,16 +25,20 @@ impl Duration_t {
 
 impl From<Duration> for Duration_t {
     fn from(duration: Duration) -> Self {
-        Duration_t {
-            seconds: duration.as_secs() as i32,
-            fraction: duration.subsec_nanos() as u32,
-        }
+        i32::try_from(duration.as_secs())
+            .map(|seconds| Duration_t {
+                seconds,
+                fraction: duration.subsec_nanos() as u32,
+            })
+            .unwrap_or(Duration_t::DURATION_INFINITE)
     }
 }
 
 impl From<Duration_t> for Duration {
     fn from(duration: Duration_t) -> Self {
-        Duration::new(duration.seconds as u64, duration.fraction)
+        u64::try_from(duration.seconds)
+            .map(|seconds| Duration::new(seconds, duration.fraction))
+            .unwrap_or_default()
     }
 }
 
-- 
2.43.0


From 396115fe7b187a4aac4e24d95ea0d0f83b32d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 16/20] fix: pad parameters to a multiple of four bytes

length % 4 pads to a multiple of four only when the length is even, and
overflowed when a length close to 65535 was read.
---
 src/messages/submessage_elements/parameter.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index 096de34..784faec 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -10,14 +10,19 @@ pub struct Parameter {
     value: Vec<u8>,
 }
 
+/// Number of bytes that pad a value to a multiple of four
+fn alignment(length: usize) -> usize {
+    (4 - length % 4) % 4
+}
+
 impl<'a, C: Context> Readable<'a, C> for Parameter {
     #[inline]
     fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
         let parameter_id: ParameterId = reader.read_value()?;
-        let length = reader.read_u16()?;
-        let alignment = length % 4;
+        let length = usize::from(reader.read_u16()?);
+        let alignment = alignment(length);
 
-        let mut value = Vec::with_capacity((length + alignment) as usize);
+        let mut value = Vec::with_capacity(length + alignment);
 
         for _ in 0..(length + alignment) {
             let byte = reader.read_u8()?;
@@ -42,7 +47,7 @@ impl<C: Context> Writable<C> for Parameter {
         writer.write_value(&self.parameter_id)?;
 
         let length = self.value.len();
-        let alignment = length % 4;
+        let alignment = alignment(length);
         writer.write_u16((length + alignment) as u16)?;
 
         for byte in &self.value {
-- 
2.43.0


From e6a5a06ac2d7526a81e26ab744e8c271f01ba228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 17/20] fix: refuse to write a parameter whose value does not
 fit the length field

---
 src/messages/submessage_elements/parameter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index 784faec..e3b6906 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -1,5 +1,6 @@
 use crate::structure::parameter_id::ParameterId;
-use speedy::{Context, Readable, Reader, Writable, Writer};
+use speedy::{Context, Error, Readable, Reader, Writable, Writer};
+use std::convert::TryFrom;
 
 #[derive(Debug, PartialEq)]
 pub struct Parameter {
@@ -48,7 +49,9 @@ impl<C: Context> Writable<C> for Parameter {
 
         let length = self.value.len();
         let alignment = alignment(length);
-        writer.write_u16((length + alignment) as u16)?;
+        let padded_length = u16::try_from(length + alignment)
+            .map_err(|_| Error::custom("Parameter value too long for its length field"))?;
+        writer.write_u16(padded_length)?;
 
         for byte in &self.value {
             writer.write_u8(*byte)?;
-- 
2.43.0


From 9d48d3845a2ecf2a44234b5c02aee6e0f207f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 18/20] fix: accept parameters with an empty value

Such a parameter, like PID_SENTINEL, takes four bytes, not eight.
---
 src/messages/submessage_elements/parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index e3b6906..e7b6d8b 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -38,7 +38,7 @@ impl<'a, C: Context> Readable<'a, C> for Parameter {
 
     #[inline]
     fn minimum_bytes_needed() -> usize {
-        8
+        4
     }
 }
 
-- 
2.43.0


From 7da86bfdd11896d538fae0ce0f9a6671e3b8c0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 19/20] fix: check that a parameter's value is there before
 allocating it

The claimed length alone caused an allocation of up to 64 KiB.
---
 src/messages/submessage_elements/parameter.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index e7b6d8b..2af9168 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -23,12 +23,7 @@ impl<'a, C: Context> Readable<'a, C> for Parameter {
         let length = usize::from(reader.read_u16()?);
         let alignment = alignment(length);
 
-        let mut value = Vec::with_capacity(length + alignment);
-
-        for _ in 0..(length + alignment) {
-            let byte = reader.read_u8()?;
-            value.push(byte);
-        }
+        let value = reader.read_vec(length + alignment)?;
 
         Ok(Parameter {
             parameter_id: parameter_id,
-- 
2.43.0


From 61f508afd77c737e9888b82bdfe765f56662624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 20/20] Hook: constructor of Parameter for runtime monitors
 (cfg rtps_verif_parameter)

---
 src/messages/submessage_elements/parameter.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index 2af9168..eb7d085 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -60,6 +60,17 @@ impl<C: Context> Writable<C> for Parameter {
     }
 }
 
+#[cfg(rtps_verif_parameter)]
+impl Parameter {
+    /// Constructor for external runtime monitors (the fields are private).
+    pub fn verif_new(parameter_id: ParameterId, value: Vec<u8>) -> Self {
+        Parameter {
+            parameter_id,
+            value,
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0

