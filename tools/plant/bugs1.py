R="src/messages/receiver.rs"
BUGS={}
def bug(id, prop, edits, needs, breaks, demo, cfg=()):
    BUGS[id]=dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, cfg=list(cfg))

bug("sn-low-half-sign", "C10",
 [("src/structure/sequence_number.rs","        let low: u32 = reader.read_value()?;\n\n        Ok(SequenceNumber_t(((i64::from(high)) << 32) + i64::from(low)))",
   "        let low: i32 = reader.read_value()?;\n\n        Ok(SequenceNumber_t((i64::from(high) << 32) + i64::from(low)))")],
 "a sequence number whose low 32 bits have the top bit set",
 "the low half is sign extended, so such a number does not round-trip",
 '''fn main() { for n in [1i64, 0x7fff_ffff, 0x8000_0000, 0x1_ffff_ffff, -1] {
    let b = SequenceNumber_t::from(n).write_to_vec_with_ctx(BE).unwrap();
    assert_eq!(b, n.to_be_bytes());
    assert_eq!(i64::from(SequenceNumber_t::read_from_buffer_with_ctx(BE, &b).unwrap()), n);
} }''')

bug("set-insert-always-new", "C12",
 [("src/common/ranged_bit_set.rs","            Some(normalized) => self.set.insert(normalized),",
   "            Some(normalized) => {\n                self.set.insert(normalized);\n                true\n            }")],
 "the same number inserted twice", "a repeated insertion is reported as new",
 '''fn main() { let mut s = SequenceNumberSet_t::new(SequenceNumber_t::from(10));
    assert!(s.insert(SequenceNumber_t::from(50)));
    assert!(!s.insert(SequenceNumber_t::from(50))); }''')

bug("cache-remove-first-only", "C18",
 [("src/structure/history_cache.rs","        self.changes\n            .retain(|x| x.sequence_number != sequence_number)\n    }\n\n    fn get_seq_num_min",
   "        if let Some(index) = self\n            .changes\n            .iter()\n            .position(|x| x.sequence_number == sequence_number)\n        {\n            self.changes.swap_remove(index);\n        }\n    }\n\n    fn get_seq_num_min")],
 "a number added twice and then removed", "the number is still found after its removal",
 '''fn change(n: i64) -> CacheChange { CacheChange { kind: ChangeKind_t::ALIVE, writer_guid: GUID_t::GUID_UNKNOWN, instance_handle: InstanceHandle_t::default(), sequence_number: SequenceNumber_t::from(n), data_value: Data {} } }
fn main() { let mut h = MonitoredHistoryCache::new();
    for n in [1, 2, 2, 3] { h.add_change(change(n)); }
    h.remove_change(SequenceNumber_t::from(2));
    assert!(h.get_change(SequenceNumber_t::from(2)).is_none());
    h.remove_change(SequenceNumber_t::from(3));
    h.remove_change(SequenceNumber_t::from(1));
    assert!(h.get_seq_num_max().is_none()); }''')

bug("proxy-distance-compare", "C19",
 [("src/behavior/reader_proxy.rs","            .filter(move |change| change.sequence_number > highest_seq_num_sent)",
   "            .filter(move |change| {\n                let distance = i64::from(change.sequence_number).wrapping_sub(i64::from(highest_seq_num_sent));\n                distance > 0 || i64::from(highest_seq_num_sent) == std::i64::MIN\n            })")],
 "numbers more than 2^63 apart: a very small one offered after a very large one was handed out",
 "a change below the highest one sent is handed out again",
 '''fn change(n: i64) -> CacheChange { CacheChange { kind: ChangeKind_t::ALIVE, writer_guid: GUID_t::GUID_UNKNOWN, instance_handle: InstanceHandle_t::default(), sequence_number: SequenceNumber_t::from(n), data_value: Data {} } }
fn main() { let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, false);
    let h = vec![change(i64::MAX - 1)];
    assert!(p.next_unsent_change(&h).is_some());
    let h = vec![change(-5), change(i64::MAX - 1)];
    assert!(p.next_unsent_change(&h).is_none()); }''')

bug("writer-number-32-bit", "C20",
 [("src/behavior/stateless_writer.rs","        self.writer_attributes.last_change_sequence_number =\n            self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(1);",
   "        let last = i64::from(self.writer_attributes.last_change_sequence_number);\n        let next = (last & !0xFFFF_FFFF) | i64::from((last as u32).wrapping_add(1));\n        self.writer_attributes.last_change_sequence_number = SequenceNumber_t::from(next);")],
 "a writer whose last number ends in 32 one bits", "the number falls back by 2^32 instead of going up by one",
 '''fn d() -> Duration_t { Duration_t::DURATION_ZERO }
fn main() { for start in [0i64, 0xffff_ffff] {
  let guid = GUID_t { guid_prefix: GuidPrefix_t { entity_key: [3; 12] }, entity_id: EntityId_t::ENTITYID_UNKNOWN };
  let mut w = MonitoredStatelessWriter::new(EntityAttributes { guid }, EndpointAttributes { topic_kind: TopicKind_t::NO_KEY, reliability_level: ReliabilityKind_t::RELIABLE, unicast_locator_list: Locator_t::LOCATOR_INVALID, multicast_locator_list: Locator_t::LOCATOR_INVALID },
    WriterAttributes { push_mode: true, heartbeat_period: d(), nack_response_delay: d(), nack_suppression_duration: d(), last_change_sequence_number: SequenceNumber_t::from(start) }, Time_t::TIME_ZERO);
  for k in 1..4 { assert_eq!(i64::from(w.new_change(ChangeKind_t::ALIVE, Data {}, InstanceHandle_t::default()).sequence_number), start + k); }
} }''')

bug("locator-remove-one", "C21",
 [("src/behavior/stateless_writer.rs","        self.reader_locators.retain(|x| x != &a_locator)",
   "        if let Some(index) = self.reader_locators.iter().position(|x| x == &a_locator) {\n            self.reader_locators.remove(index);\n        }")],
 "the same locator added more than once and removed", "an equal entry stays in the list",
 '''fn d() -> Duration_t { Duration_t::DURATION_ZERO }
fn l(p: u32) -> ReaderLocator { ReaderLocator::verif_new(Locator_t { kind: LocatorKind_t::LOCATOR_KIND_UDPv4, port: p, address: [1; 16] }, false) }
fn main() {
  let mut w = MonitoredStatelessWriter::new(EntityAttributes { guid: GUID_t::GUID_UNKNOWN }, EndpointAttributes { topic_kind: TopicKind_t::NO_KEY, reliability_level: ReliabilityKind_t::RELIABLE, unicast_locator_list: Locator_t::LOCATOR_INVALID, multicast_locator_list: Locator_t::LOCATOR_INVALID },
    WriterAttributes { push_mode: true, heartbeat_period: d(), nack_response_delay: d(), nack_suppression_duration: d(), last_change_sequence_number: SequenceNumber_t::from(0) }, Time_t::TIME_ZERO);
  for p in [1, 2, 1, 3] { w.reader_locator_add(l(p)); }
  w.reader_locator_remove(l(1));
  assert_eq!(w.reader_locators(), &[l(2), l(3)][..]); }''', cfg=["rtps_verif_endpoints"])

bug("lookup-any-prefix", "C21",
 [("src/behavior/stateful_writer.rs","            .filter(move |proxy| proxy.remote_reader_guid == a_reader_guid)",
   "            .filter(move |proxy| {\n                proxy.remote_reader_guid.entity_id == a_reader_guid.entity_id\n                    && proxy.remote_reader_guid.guid_prefix.entity_key[..8]\n                        == a_reader_guid.guid_prefix.entity_key[..8]\n            })")],
 "readers of two participants on the same host whose GUID prefixes differ only in the last four bytes", "the proxy of another participant's reader is found",
 '''fn d() -> Duration_t { Duration_t::DURATION_ZERO }
fn main() {
  let g = |x: u8| { let mut k = [7u8; 12]; k[11] = x; GUID_t { guid_prefix: GuidPrefix_t { entity_key: k }, entity_id: EntityId_t::ENTITYID_PARTICIPANT } };
  let mut w = StatefulWriter::verif_new(EntityAttributes { guid: GUID_t::GUID_UNKNOWN }, EndpointAttributes { topic_kind: TopicKind_t::NO_KEY, reliability_level: ReliabilityKind_t::RELIABLE, unicast_locator_list: Locator_t::LOCATOR_INVALID, multicast_locator_list: Locator_t::LOCATOR_INVALID },
    WriterAttributes { push_mode: true, heartbeat_period: d(), nack_response_delay: d(), nack_suppression_duration: d(), last_change_sequence_number: SequenceNumber_t::from(0) });
  w.matched_reader_add(ReaderProxy::new(g(1), false));
  w.matched_reader_add(ReaderProxy::new(g(2), false));
  assert_eq!(w.matched_reader_lookup(g(2)).count(), 1);
  assert_eq!(w.matched_reader_lookup(g(3)).count(), 0); }''', cfg=["rtps_verif_endpoints"])

bug("info-src-keeps-timestamp", "C03",
 [(R,"                            vec![Locator_t::LOCATOR_INVALID];\n                        self.receiver.have_timestamp = false;\n\n                        Ok(None)",
     "                            vec![Locator_t::LOCATOR_INVALID];\n\n                        Ok(None)")],
 "INFO_TS followed by INFO_SRC in one message", "the timestamp of the former source is kept for the new one",
 '''fn main() { let mut m = rx(); let mut b = header([1; 12]);
    b.extend(sub(9, 0, &[0, 0, 0, 5, 0, 0, 0, 0]));
    let mut body = vec![2, 1, 1, 9]; body.extend([9u8; 12]);
    b.extend(sub(12, 0, &body)); b.extend(heartbeat(1, 2, 3));
    assert_eq!(all(&mut m, &b).len(), 1);
    assert!(!m.verif_context().have_timestamp); }''')

bug("header-minor-too-new", "C06",
 [("src/messages/header.rs","            || self.protocol_version.major > ProtocolVersion_t::PROTOCOLVERSION.major)",
   "            || self.protocol_version > ProtocolVersion_t { minor: 0x7F, ..ProtocolVersion_t::PROTOCOLVERSION })")],
 "a header of version 2.128 or later", "a message of a supported major version is refused",
 '''fn main() { for minor in [0u8, 4, 127, 128, 255] { let mut m = rx(); let mut b = header([1; 12]); b[5] = minor; b.extend(heartbeat(1, 2, 3));
    let r = all(&mut m, &b); assert_eq!(r.len(), 1); assert!(r[0].is_ok()); } }''')

bug("protocol-id-any-case", "C06",
 [("src/messages/protocol_id.rs","            protocol_id.protocol_id[i] = reader.read_u8()? as char;",
   "            protocol_id.protocol_id[i] = (reader.read_u8()? as char).to_ascii_uppercase();")],
 "a header that starts with rtps in small letters", "bytes that are no RTPS message are accepted",
 '''fn main() { for i in 0..4 { let mut m = rx(); let mut b = header([1; 12]); b[i] |= 0x20; b.extend(heartbeat(1, 2, 3));
    let r = all(&mut m, &b); assert!(r[0].is_err()); } }''')

bug("heartbeat-duplicates-dropped", "C02",
 [(R,"    state: DeserializationState,\n}\n\nimpl MessageReceiver","    state: DeserializationState,\n    last_heartbeat: Option<(EntityId_t, Count_t)>,\n}\n\nimpl MessageReceiver"),
  (R,"            state: DeserializationState::ReadingHeader,\n        }","            state: DeserializationState::ReadingHeader,\n            last_heartbeat: None,\n        }"),
  (R,"                        Ok(Some(EntitySubmessage::Heartbeat(\n                            heartbeat,\n                            submessage_header.flags,\n                        )))",
     "                        let id = Some((heartbeat.writer_id, heartbeat.count));\n                        if self.last_heartbeat == id {\n                            return Ok(None);\n                        }\n                        self.last_heartbeat = id;\n                        Ok(Some(EntitySubmessage::Heartbeat(\n                            heartbeat,\n                            submessage_header.flags,\n                        )))"),
  (R,"use crate::messages::info_source::InfoSource;","use crate::messages::info_source::InfoSource;\nuse crate::structure::{count::Count_t, entity_id::EntityId_t};"),
  ],
 "two heartbeats with the same writer id and count, one after the other",
 "the second heartbeat is lost although it may come from another participant or announce other numbers",
 '''fn main() { let mut m = rx(); let mut b = header([1; 12]);
    b.extend(heartbeat(1, 2, 3)); b.extend(sub(14, 0, &[4; 12])); b.extend(heartbeat(1, 5, 3));
    assert_eq!(all(&mut m, &b).len(), 2); }''')

bug("set-words-rounded-down", "C09",
 [("src/common/bit_set.rs","        let number_of_bytes = (number_of_bits + 31) / 32;","        let number_of_bytes = number_of_bits / 32 + (number_of_bits % 32 > 1) as u32;")],
 "a number set from a peer with one bit more than a multiple of 32",
 "the bit vector is given a length its storage does not have, so that reading its last bit is out of bounds",
 '''fn main() { let b = [0u8, 0, 0, 33, 0, 0, 0, 1, 0, 0, 0, 1];
    let r = std::panic::catch_unwind(|| BitSetRef::read_from_buffer_with_ctx(BE, &b).map(|s| { let v = s.into_bit_set().into_bit_vec(); (v.len(), v.storage().len(), v.get(32)) }));
    assert_eq!(r.unwrap().unwrap(), (33, 2, Some(true))); }''')

bug("v4-mapped-addresses", "C14",
 [("src/structure/locator.rs","                IpAddr::V6(Ipv6Addr::from(locator.address)),","                match Ipv6Addr::from(locator.address).to_ipv4_mapped() {\n                    Some(ip4) => IpAddr::V4(ip4),\n                    None => IpAddr::V6(Ipv6Addr::from(locator.address)),\n                },")],
 "an IPv6 locator that holds an IPv4-mapped address", "the address does not come back as the IPv6 address it was",
 '''use std::net::SocketAddr;
fn main() { for a in ["[::ffff:1.2.3.4]:80", "[fe80::1]:80", "1.2.3.4:80"] { let a: SocketAddr = a.parse().unwrap(); assert_eq!(SocketAddr::from(Locator_t::from(a)), a); } }''')

bug("time-fraction-float", "C15",
 [("src/structure/time.rs","                let fraction = (i64::from(time.fraction) * NANOS_PER_SEC) >> 32;\n                Ok(std::time::UNIX_EPOCH + Duration::new(time.seconds as u64, fraction as u32))",
   "                let seconds = f64::from(time.seconds) + f64::from(time.fraction) / 4_294_967_296.0;\n                Ok(std::time::UNIX_EPOCH + Duration::from_secs_f64(seconds))")],
 "a time far enough from the epoch that a 64-bit float has no nanoseconds left", "the time comes back some hundred nanoseconds off",
 '''use std::time::*;
fn main() { for (s, n) in [(1u64, 1u32), (1_600_000_000, 123_456_789), (2_000_000_000, 1)] { let t = UNIX_EPOCH + Duration::new(s, n);
    let u = SystemTime::try_from(Time_t::from(t)).unwrap();
    let d = t.duration_since(u).or_else(|e| Ok::<_, ()>(e.duration())).unwrap();
    assert!(d < Duration::from_nanos(2), "{:?}", d); } }''')

bug("duration-micros", "C16",
 [("src/structure/duration.rs","                fraction: duration.subsec_nanos() as u32,","                fraction: duration.subsec_micros() * 1000,")],
 "a duration with nanoseconds", "the nanoseconds are lost",
 '''use std::time::Duration;
fn main() { for n in [0u32, 1000, 123_456_789] { let d = Duration::new(5, n); assert_eq!(Duration::from(Duration_t::from(d)), d); } }''')

bug("flag-needs-all-bits", "C24",
 [("src/messages/submessage_flag.rs","        self.flags & mask != 0","        self.flags & mask == mask")],
 "a mask of several bits of which only some are set", "testing reports whether all bits are set, and an empty mask is set",
 '''fn main() { let f = SubmessageFlag { flags: 0b0101 }; assert!(f.is_flag_set(0b0110)); assert!(!f.is_flag_set(0)); assert!(!f.is_flag_set(0b1010)); }''')

bug("shared-prefix-memo", "C22",
 [(R,"                self.receiver.source_guid_prefix = header.guid_prefix;",
     "                // most traffic of a thread comes from one participant\n                self.receiver.source_guid_prefix = LAST_PREFIX.with(|last| {\n                    if last.get().entity_key[..8] != header.guid_prefix.entity_key[..8] {\n                        last.set(header.guid_prefix);\n                    }\n                    last.get()\n                });"),
  (R,"pub struct MessageReceiver {","thread_local! {\n    static LAST_PREFIX: std::cell::Cell<GuidPrefix_t> = std::cell::Cell::new(GuidPrefix_t::GUIDPREFIX_UNKNOWN);\n}\n\npub struct MessageReceiver {")],
 "two receivers on one thread whose senders' prefixes differ only in the last four bytes",
 "what one receiver was sent shows up as the source of the other's messages",
 '''fn main() { let mut a = [5u8; 12]; let mut b = a; b[11] = 6;
    let (mut m, mut n) = (rx(), rx());
    all(&mut m, &header(a)); all(&mut n, &header(b));
    assert_eq!(m.verif_context().source_guid_prefix.entity_key, a);
    assert_eq!(n.verif_context().source_guid_prefix.entity_key, b); }''')

bug("racy-statistics", "C22",
 [(R,"                        // This is a last submessage\n","                        // This is a last submessage\n                        unsafe { LAST_SUBMESSAGES += 1 };\n                        log::trace!(\"{} messages ended early\", unsafe { LAST_SUBMESSAGES });\n"),
  (R,"    ReadingHeader,\n    ReadingSubmessage,\n}","    ReadingHeader,\n    ReadingSubmessage,\n}\n\nstatic mut LAST_SUBMESSAGES: u64 = 0;")],
 "receivers on two threads that handle zero-length last submessages at the same time", "an unsynchronised counter shared by all receivers: a data race",
 '''// No behaviour differs but the race itself: a receiver must not write to memory that all share.
fn main() { use std::process::Command;
    // count the writable statics of the crate's receiver module
    let me = std::env::current_exe().unwrap();
    let o = Command::new("nm").arg("-C").arg(&me).output().unwrap();
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    let bad: Vec<&str> = s.lines().filter(|l| { let mut w = l.split_whitespace(); let (_, t) = (w.next(), w.next().unwrap_or("")); matches!(t, "b" | "B" | "d" | "D") && l.contains("rtps_rs::") && !l.contains("__CALLSITE") && !l.contains("vtable") }).collect();
    let mut m = rx(); let mut b = header([1; 12]); b.extend([7, 0, 0, 0]); b.extend(&heartbeat(1, 2, 3)[4..]); assert_eq!(all(&mut m, &b).len(), 1);
    assert!(bad.is_empty(), "{:?}", bad); }''')

bug("parameter-length-unpadded", "C17",
 [("src/messages/submessage_elements/parameter.rs","        for byte in &self.value {\n            writer.write_u8(*byte)?;\n        }",
   "        for byte in self.value.iter().rev().skip_while(|byte| **byte == 0 && length % 4 != 0).collect::<Vec<_>>().iter().rev() {\n            writer.write_u8(**byte)?;\n        }\n        let alignment = if length % 4 != 0 { alignment + self.value.iter().rev().take_while(|byte| **byte == 0).count() % 4 } else { alignment };")],
 "a value of odd length that ends in four or more zero bytes", "fewer bytes are written than the length field says",
 '''fn main() { for v in [vec![1u8, 2, 3], vec![1, 0, 0, 0, 0], vec![0; 9]] { let n = (v.len() + 3) / 4 * 4;
    let id = ParameterId::read_from_buffer_with_ctx(BE, &[0, 5]).unwrap();
    let b = Parameter::verif_new(id, v).write_to_vec_with_ctx(BE).unwrap(); assert_eq!(b.len(), 4 + n); } }''', cfg=["rtps_verif_parameter"])
