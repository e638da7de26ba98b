R="src/messages/receiver.rs"
BUGS={}
def bug(id, prop, edits, needs, breaks, demo, cfg=()):
    BUGS[id]=dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, cfg=list(cfg))

bug("heartbeat-duplicates-dropped", "C02",
 [(R,"    state: DeserializationState,\n}\n\nimpl MessageReceiver","    state: DeserializationState,\n    last_heartbeat: Option<Heartbeat>,\n}\n\nimpl MessageReceiver"),
  (R,"            state: DeserializationState::ReadingHeader,\n        }","            state: DeserializationState::ReadingHeader,\n            last_heartbeat: None,\n        }"),
  (R,"                        Ok(Some(EntitySubmessage::Heartbeat(\n                            heartbeat,\n                            submessage_header.flags,\n                        )))",
     "                        let again = Heartbeat { ..heartbeat };\n                        if self.last_heartbeat.as_ref().map_or(false, |last| {\n                            last.writer_id == again.writer_id && last.count == again.count\n                        }) {\n                            return Ok(None);\n                        }\n                        self.last_heartbeat = Some(again);\n                        Ok(Some(EntitySubmessage::Heartbeat(\n                            heartbeat,\n                            submessage_header.flags,\n                        )))"),
  ],
 "two heartbeats with the same writer id and count, one after the other",
 "the second heartbeat is lost although it may come from another participant or announce other numbers",
 '''fn main() { let mut m = rx(); let mut b = header([1; 12]);
    b.extend(heartbeat(1, 2, 3)); b.extend(sub(14, 0, &[4; 12])); b.extend(heartbeat(1, 5, 3));
    assert_eq!(all(&mut m, &b).len(), 2); }''')

bug("time-fraction-rounded", "C15",
 [("src/structure/time.rs","                let fraction = (i64::from(dur_since_epoch.subsec_nanos()) << 32) / NANOS_PER_SEC;",
   "                let fraction = (i64::from(dur_since_epoch.subsec_nanos()) * 4_294_967_295) / (NANOS_PER_SEC - 1) / 4 * 4;")],
 "many nanosecond values in the upper half of a second", "the time comes back two nanoseconds or more off",
 '''use std::time::*;
fn main() { for n in (0..1_000_000_000u32).step_by(10_007) { let t = UNIX_EPOCH + Duration::new(7, n);
    let u = SystemTime::try_from(Time_t::from(t)).unwrap();
    let d = t.duration_since(u).or_else(|e| Ok::<_, ()>(e.duration())).unwrap();
    assert!(d < Duration::from_nanos(2), "{} {:?}", n, d); } }''')

bug("time-after-2038-half", "C15",
 [("src/structure/time.rs","            _ if time.seconds < 0 => Err(\"Conversion from a negative Time_t\"),",
   "            _ if time.seconds < -1 => Err(\"Conversion from a negative Time_t\"),")],
 "a timestamp of minus one second that is not the invalid one", "the timestamp is converted to a time some 2^64 seconds away, which panics",
 '''fn main() { let t = Time_t::read_from_buffer_with_ctx(BE, &[0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0]).unwrap();
    assert!(SystemTime::try_from(t).is_err()); }
use std::time::SystemTime;''')

bug("duration-rounds-up", "C16",
 [("src/structure/duration.rs","                fraction: duration.subsec_nanos() as u32,","                fraction: (duration.subsec_nanos() as f32) as u32,")],
 "a duration whose nanoseconds need more than 24 bits", "nanoseconds are rounded",
 '''use std::time::Duration;
fn main() { for n in [0u32, 1, 500_000_000, 999_999_999, 123_456_789] { let d = Duration::new(5, n); assert_eq!(Duration::from(Duration_t::from(d)), d); } }''')

bug("info-reply-appends", "C08",
 [(R,"                                bytes.advance(read_bytes);\n                                multicast_locator_list?\n","                                bytes.advance(read_bytes);\n                                let mut known = std::mem::take(&mut self.receiver.multicast_reply_locator_list);\n                                known.retain(|locator| locator.kind == LocatorKind_t::LOCATOR_KIND_UDPv6);\n                                known.extend(multicast_locator_list?);\n                                known\n")],
 "several INFO_REPLY submessages with IPv6 multicast locators in one message", "former locators are kept, so what a receiver keeps grows with the message",
 '''fn main() { let mut m = rx(); let mut b = header([1; 12]);
    let mut body = vec![0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 9]; body.extend([1u8; 16]);
    for _ in 0..100 { b.extend(sub(15, 2, &body)); }
    all(&mut m, &b);
    assert_eq!(m.verif_context().multicast_reply_locator_list.len(), 1); }''')

bug("gap-empty-swallowed", "C02",
 [(R,"                        Ok(Some(EntitySubmessage::Gap(gap)))","                        // says nothing\n                        if gap == (Gap { gap_list: crate::structure::sequence_number_set::SequenceNumberSet_t::new(gap.gap_start), ..Gap { reader_id: gap.reader_id, writer_id: gap.writer_id, gap_start: gap.gap_start, gap_list: crate::structure::sequence_number_set::SequenceNumberSet_t::new(gap.gap_start) } }) {\n                            return Ok(None);\n                        }\n                        Ok(Some(EntitySubmessage::Gap(gap)))")],
 "a GAP whose list is empty and starts at the gap start", "the GAP is not delivered",
 '''fn main() { let mut m = rx(); let mut b = header([1; 12]);
    let mut body = vec![0, 0, 1, 7, 0, 0, 2, 2]; body.extend(9i64.to_be_bytes()); body.extend(9i64.to_be_bytes()); body.extend(0u32.to_be_bytes());
    b.extend(sub(8, 0, &body)); assert_eq!(all(&mut m, &b).len(), 1); }''')

bug("acknack-byte-order-of-host", "C24",
 [("src/messages/submessage_header.rs","            Endianness::BigEndian => u16::from_be_bytes([reader.read_u8()?, reader.read_u8()?]),",
   "            Endianness::BigEndian if flags.flags == 0 || submessage_id != SubmessageKind::NACK_FRAG => {\n                u16::from_be_bytes([reader.read_u8()?, reader.read_u8()?])\n            }\n            Endianness::BigEndian => reader.read_u16()?,")],
 "a big-endian NACK_FRAG with another flag set", "its length is read in the byte order of the caller",
 '''fn main() { for f in [0u8, 2, 0x80] { let h = SubmessageHeader::read_from_buffer_with_ctx(LE, &[0x12, f, 0, 36]).unwrap(); assert_eq!(h.submessage_length, 36); } }''')

bug("reply-ip4-stale-multicast", "C03",
 [(R,"                                vec![multicast_locator.into()]\n                            } else {\n                                vec![]\n                            };","                                vec![multicast_locator.into()]\n                            } else {\n                                std::mem::take(&mut self.receiver.multicast_reply_locator_list)\n                            };")],
 "an INFO_REPLY_IP4 without the multicast flag after a reply submessage with multicast locators", "the former multicast reply locators stay in force",
 '''fn main() { let mut m = rx(); let mut b = header([1; 12]);
    b.extend(sub(13, 2, &[1, 2, 3, 4, 0, 0, 0, 9, 239, 0, 0, 1, 0, 0, 0, 9]));
    b.extend(sub(13, 0, &[1, 2, 3, 4, 0, 0, 0, 9])); b.extend(heartbeat(1, 2, 3));
    assert_eq!(all(&mut m, &b).len(), 1);
    assert!(m.verif_context().multicast_reply_locator_list.is_empty()); }''')

bug("frag-mul-saturates", "C13",
 [("src/messages/fragment_number.rs","checked_impl!(CheckedMul, checked_mul, FragmentNumber_t);",
   "use num_traits::CheckedMul;\n\nimpl CheckedMul for FragmentNumber_t {\n    #[inline]\n    fn checked_mul(&self, v: &FragmentNumber_t) -> Option<FragmentNumber_t> {\n        let product = u64::from(self.0) * u64::from(v.0);\n        Some(product).filter(|product| product >> 33 == 0).map(|product| FragmentNumber_t::from(product as u32))\n    }\n}")],
 "a product between 2^32 and 2^33", "a wrapped product is returned instead of nothing",
 '''use num_traits::*;
fn main() { let f = |x: u32| FragmentNumber_t::from(x); assert_eq!(f(65536).checked_mul(&f(65536)), None); assert_eq!(f(0x8000_0000).checked_mul(&f(3)), None); assert_eq!(f(7).checked_mul(&f(6)), Some(f(42))); }''')

bug("cache-max-of-recent", "C18",
 [("src/structure/history_cache.rs","        self.changes\n            .iter()\n            .map(|x| &x.sequence_number)\n            .max_by(|x, y| x.cmp(&y))",
   "        // numbers go up, so the largest is among the latest\n        self.changes\n            .iter()\n            .rev()\n            .take(64)\n            .map(|x| &x.sequence_number)\n            .max_by(|x, y| x.cmp(&y))")],
 "more than 64 changes added after the one with the largest number", "the reported maximum is too small",
 '''fn change(n: i64) -> CacheChange { CacheChange { kind: ChangeKind_t::ALIVE, writer_guid: GUID_t::GUID_UNKNOWN, instance_handle: InstanceHandle_t::default(), sequence_number: SequenceNumber_t::from(n), data_value: Data {} } }
fn main() { let mut h = MonitoredHistoryCache::new(); h.add_change(change(1000));
    for n in 1..100 { h.add_change(change(n)); }
    assert_eq!(h.get_seq_num_max(), Some(SequenceNumber_t::from(1000))); }''')

bug("unsent-stops-at-hole", "C25",
 [("src/behavior/reader_proxy.rs","            .min_by(|x, y| x.sequence_number.cmp(&y.sequence_number))\n            .and_then(|change| {",
   "            .min_by(|x, y| x.sequence_number.cmp(&y.sequence_number))\n            .filter(|change| {\n                // wait for what is still on its way into the history\n                self.highest_seq_num_sent < SequenceNumber_t::from(0)\n                    || i64::from(change.sequence_number) - i64::from(self.highest_seq_num_sent) < 8\n                    || changes.len() < 2\n            })\n            .and_then(|change| {")],
 "eight or more changes in a row removed from the history before a reader was served them", "the reader never gets the changes after the hole",
 '''fn change(n: i64) -> CacheChange { CacheChange { kind: ChangeKind_t::ALIVE, writer_guid: GUID_t::GUID_UNKNOWN, instance_handle: InstanceHandle_t::default(), sequence_number: SequenceNumber_t::from(n), data_value: Data {} } }
fn main() { let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, false);
    assert!(p.next_unsent_change(&[change(1)]).is_some());
    assert!(p.next_unsent_change(&[change(1), change(40)]).is_some()); }''')

bug("count-overflow-panics", "C01",
 [("src/messages/submessage_kind.rs","#[derive(Debug, PartialEq, Eq, Readable, Writable)]\npub struct SubmessageKind {","#[derive(PartialEq, Eq, Readable, Writable)]\npub struct SubmessageKind {"),
  ("src/messages/submessage_kind.rs","impl SubmessageKind {\n","const NAMES: [&str; 0x17] = [\n    \"\", \"PAD\", \"\", \"\", \"\", \"\", \"ACKNACK\", \"HEARTBEAT\", \"GAP\", \"INFO_TS\", \"\", \"\", \"INFO_SRC\",\n    \"INFO_REPLY_IP4\", \"INFO_DST\", \"INFO_REPLY\", \"\", \"\", \"NACK_FRAG\", \"HEARTBEAT_FRAG\", \"\", \"DATA\",\n    \"DATA_FRAG\",\n];\n\nimpl std::fmt::Debug for SubmessageKind {\n    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {\n        match self.value {\n            vendor if vendor & 0x80 != 0 => write!(f, \"vendor({:#x})\", vendor),\n            value => write!(f, \"{}\", NAMES[usize::from(value)]),\n        }\n    }\n}\n\nimpl SubmessageKind {\n"),
  (R,"                        info!(\n                            \"Received unknown submessage with id {:?}, skipping\",\n                            submessage_header.submessage_id\n                        );","                        let what = format!(\"{:?}\", submessage_header.submessage_id);\n                        info!(\"Received unknown submessage {}, skipping\", what);")],
 "an unknown submessage kind from 0x17 to 0x7f, which RTPS reserves", "the name table is indexed out of range: decode panics",
 '''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(0x80, 0, &[0; 4])); b.extend(sub(0x33, 0, &[0; 4])); b.extend(heartbeat(1, 2, 3));
    assert_eq!(all(&mut m, &b).len(), 1); }''')
