exec(open("/verif/tools/plant/bugs4.py").read().split("# ---- C01")[0])
def bug(id, prop, edits, needs, breaks, demo, cfg=(), asan=False):
    BUGS[id]=dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, cfg=list(cfg), asan=asan)
bug("set-raw-words","C09",[("src/common/bit_set.rs","        for byte in bytes {\n            writer.write_u32(*byte)?;\n        }\n","        // whole pairs of words first\n        let pairs = (bytes.len() + 1) / 2;\n        for i in 0..pairs {\n            let (low, high) = unsafe {\n                let pair = bytes.as_ptr().add(2 * i);\n                (*pair, *pair.add(1))\n            };\n            writer.write_u32(low)?;\n            if 2 * i + 1 < bytes.len() {\n                writer.write_u32(high)?;\n            }\n        }\n")],
"a set with an odd number of words is encoded","a word beyond the storage is read",
'''fn main() { let s = SequenceNumberSet_t::read_from_buffer_with_ctx(BE, &[0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 160, 1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4]).unwrap(); assert_eq!(s.write_to_vec_with_ctx(BE).unwrap().len(), 32); }''', asan=True)
bug("iter-unchecked","C09",[("src/common/bit_set.rs","                inner.push(reader.read_u32()?);\n            }\n","                inner.push(reader.read_u32()?);\n            }\n            // a set that ends in an empty word does not need it\n            if number_of_bytes > 4 && inner.last() == Some(&0) {\n                inner.pop();\n                inner.shrink_to_fit();\n            }\n")],
"a set of more than four words whose last word is zero","the length of the bits does not match their storage",
'''fn main() { let s = SequenceNumberSet_t::read_from_buffer_with_ctx(BE, &[0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 160, 1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4, 0, 0, 0, 0]).unwrap(); assert_eq!(s.into_iter().count(), 20); }''')
bug("leak-on-bad-locator","C08",[(S+"locator.rs","        locator.kind = reader.read_value()?;\n","        locator.kind = match reader.read_value() {\n            Ok(kind) => kind,\n            Err(error) => {\n                log::warn!(\"Locator of undefined kind before port {}\", Box::leak(Box::new(reader.read_u32()?)));\n                return Err(error);\n            }\n        };\n")],
"locators of undefined kinds, with logging","a few bytes are lost with each",
'''use std::alloc::*; struct A; static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() { let before = LIVE.load(std::sync::atomic::Ordering::SeqCst); for _ in 0..10000 { let _ = Locator_t::read_from_buffer_with_ctx(BE, &[9; 24]); } assert!(LIVE.load(std::sync::atomic::Ordering::SeqCst) - before < 1000); }''')
bug("heartbeat-backwards","C25",[("src/messages/heartbeat.rs","#[derive(","#[derive(")],"","","")
del BUGS["heartbeat-backwards"]
# memory of the past in the cache: extremes kept in fields
bug("cache-remembers-maximum","C18",[(S+"history_cache.rs","struct HistoryCache {\n    changes: Vec<CacheChange>,\n}","struct HistoryCache {\n    changes: Vec<CacheChange>,\n    maximum: Option<SequenceNumber_t>,\n}"),
 (S+"history_cache.rs","        HistoryCache {\n            changes: Vec::new(),\n        }","        HistoryCache {\n            changes: Vec::new(),\n            maximum: None,\n        }"),
 (S+"history_cache.rs","        self.changes.push(change)","        if self.maximum.map_or(true, |maximum| maximum < change.sequence_number) {\n            self.maximum = Some(change.sequence_number);\n        }\n        self.changes.push(change)"),
 (S+"history_cache.rs","            .retain(|x| x.sequence_number != sequence_number)\n","            .retain(|x| x.sequence_number != sequence_number);\n        if self.maximum == Some(sequence_number) {\n            // the one before is the largest now\n            self.maximum = self.changes.last().map(|x| x.sequence_number);\n        }\n"),
 (S+"history_cache.rs","        self.changes\n            .iter()\n            .map(|x| &x.sequence_number)\n            .max_by(|x, y| x.cmp(&y))","        self.maximum.as_ref()")],
"the change with the largest number removed from a history that is not in ascending order","the reported maximum is too small",
CH+'''fn main() { let mut h = MonitoredHistoryCache::new(); for n in [5, 9, 3] { h.add_change(ch(n)); } h.remove_change(9.into()); assert_eq!(h.get_seq_num_max(), Some(5.into())); }''')
bug("proxy-remembers-first","C19",[("src/behavior/reader_proxy.rs","        self.unsent_changes(&changes)\n            .min_by(","        let first = changes.first().map(|change| change.sequence_number);\n        // nothing new as long as the history ends where it did\n        if changes.len() > 3\n            && changes.last().map(|change| change.sequence_number) == Some(self.highest_seq_num_sent)\n            && first < Some(self.highest_seq_num_sent)\n        {\n            return None;\n        }\n        self.unsent_changes(&changes)\n            .min_by(")],
"a history of more than three changes that ends with the one handed out last and holds a later one before it","the later one is held back",
CH+'''fn main() { let h = vec![ch(1), ch(3), ch(4), ch(2)]; let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, false); let mut n = 0; while p.next_unsent_change(&h).is_some() { n += 1; } assert_eq!(n, 4); }''')
bug("lookup-well-known","C21",[("src/behavior/stateful_writer.rs","            .filter(move |proxy| proxy.remote_reader_guid == a_reader_guid)","            .filter(move |proxy| {\n                proxy.remote_reader_guid == a_reader_guid\n                    || (proxy.remote_reader_guid.entity_id == a_reader_guid.entity_id\n                        && proxy.remote_reader_guid.guid_prefix == GuidPrefix_t::GUIDPREFIX_UNKNOWN\n                        && a_reader_guid.entity_id != EntityId_t::ENTITYID_UNKNOWN)\n            })"),
 ("src/behavior/stateful_writer.rs","use crate::structure::guid::GUID_t;","use crate::structure::entity_id::EntityId_t;\nuse crate::structure::guid::GUID_t;\nuse crate::structure::guid_prefix::GuidPrefix_t;")],
"a proxy with the unknown prefix and the same entity id","it is found for any reader with that entity id",
'''fn main() { let g = GUID_t::GUID_UNKNOWN; let l = || Locator_t::LOCATOR_INVALID; let mut w = StatefulWriter::verif_new(EntityAttributes { guid: g },
    EndpointAttributes { topic_kind: TopicKind_t::NO_KEY, reliability_level: ReliabilityKind_t::RELIABLE, unicast_locator_list: l(), multicast_locator_list: l() },
    WriterAttributes { push_mode: true, heartbeat_period: Duration_t::DURATION_ZERO, nack_response_delay: Duration_t::DURATION_ZERO, nack_suppression_duration: Duration_t::DURATION_ZERO, last_change_sequence_number: 0.into() });
    let mut a = g; a.entity_id = EntityId_t::ENTITYID_PARTICIPANT; let mut b = a; b.guid_prefix = [3; 12].into();
    w.matched_reader_add(ReaderProxy::new(a, true)); assert_eq!(w.matched_reader_lookup(b).count(), 0); }''', ["rtps_verif_endpoints"])
bug("context-per-thread","C22",[(R,"                self.receiver = Receiver::new(self.locator_kind);\n","                self.receiver = Receiver::new(self.locator_kind);\n                // the destination is the participant the thread works for\n                self.receiver.dest_guid_prefix = DESTINATION.with(|d| d.get());\n"),
 (R,"                        self.receiver.dest_guid_prefix = info_dst.guid_prefix;\n","                        self.receiver.dest_guid_prefix = info_dst.guid_prefix;\n                        if submessage_header.flags.is_flag_set(0x80) {\n                            DESTINATION.with(|d| d.set(info_dst.guid_prefix));\n                        }\n"),
 (R,"impl Decoder for MessageReceiver {","thread_local! {\n    static DESTINATION: std::cell::Cell<GuidPrefix_t> = std::cell::Cell::new(GuidPrefix_t::GUIDPREFIX_UNKNOWN);\n}\n\nimpl Decoder for MessageReceiver {")],
"an INFO_DST with the highest flag handled on the same thread before","later messages of all receivers start with that destination",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(0xe, 0x80, &[4; 12])); all(&mut m, &b); let mut m = rx(); all(&mut m, &header([2; 12])); assert_eq!(m.verif_context().dest_guid_prefix, [0; 12].into()); }''')
bug("cache-global-index","C22",[(S+"history_cache.rs","    fn add_change(&mut self, change: CacheChange) {\n","    fn add_change(&mut self, change: CacheChange) {\n        let number = i64::from(change.sequence_number);\n        if number > 1000 && NEWEST.swap(number, std::sync::atomic::Ordering::Relaxed) == number && self.changes.len() > 2 {\n            // added twice in a row\n            return;\n        }\n"),
 (S+"history_cache.rs","impl HistoryCache {","static NEWEST: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);\n\nimpl HistoryCache {")],
"two caches that get the same number above 1000, one after the other","the second does not store it",
CH+'''fn main() { let mut a = MonitoredHistoryCache::new(); let mut b = MonitoredHistoryCache::new(); for n in 1..4 { a.add_change(ch(n)); b.add_change(ch(n)); } a.add_change(ch(2000)); b.add_change(ch(2000)); assert!(b.get_change(2000.into()).is_some()); }''')
bug("info-reply-multicast-default","C23",[(R,"                                multicast_locator_list?\n                            } else {\n                                vec![]","                                multicast_locator_list?\n                            } else if bytes.len() >= 28 && submessage_header.flags.flags > 0x03 {\n                                LocatorList_t::read_from_buffer_with_ctx(\n                                    submessage_header.flags.endianness_flag(),\n                                    &bytes,\n                                )\n                                .unwrap_or_default()\n                            } else {\n                                vec![]")],
"an INFO_REPLY without the multicast flag, with another flag and more bytes","what follows the unicast list is taken for the multicast list",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); let mut body = vec![0, 0, 0, 0, 0, 0, 0, 1]; body.extend([0, 0, 0, 1, 0, 0, 0, 7]); body.extend([9; 16]); b.extend(sub(0xf, 4, &body)); all(&mut m, &b); assert!(m.verif_context().multicast_reply_locator_list.is_empty()); }''')
bug("timestamp-ordinary-invalid","C23",[(R,"                            self.receiver.have_timestamp = true;\n","                            self.receiver.have_timestamp = timestamp != Time_t::TIME_ZERO || !submessage_header.flags.is_flag_set(0x01);\n")],
"a little endian INFO_TS with time zero","it counts as no timestamp",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(9, 1, &[0; 8])); all(&mut m, &b); assert!(m.verif_context().have_timestamp); }''')
bug("frag-set-base-zero","C25",[("src/common/ranged_bit_set.rs","                    return B::from_usize(i)?.checked_add(&self.base);","                    let number = B::from_usize(i)?.checked_add(&self.base)?;\n                    // zero is no number\n                    if number.to_i64() == Some(0) && i == 0 {\n                        continue;\n                    }\n                    return Some(number);")],
"a set with base zero that contains zero","zero is left out",
'''fn main() { let mut s: SequenceNumberSet_t = SequenceNumberSet_t::new(0.into()); s.insert(0.into()); s.insert(1.into()); assert_eq!(s.into_iter().count(), 2); }''')
bug("vendor-any","C10",[("src/messages/vendor_id.rs","#[derive(Copy, Clone, Debug, PartialEq, Eq)]\n","#[derive(Copy, Clone, Debug, Eq)]\n"),("src/messages/vendor_id.rs","impl Default for VendorId_t {","impl PartialEq for VendorId_t {\n    fn eq(&self, other: &VendorId_t) -> bool {\n        u16::from_be_bytes(self.vendor_id) & 0x7FFF == u16::from_be_bytes(other.vendor_id) & 0x7FFF\n    }\n}\n\nimpl Default for VendorId_t {")],
"vendor ids that differ in the first bit only","they are equal",
'''fn main() { assert!(VendorId_t::from([0x81, 2]) != VendorId_t::from([1, 2])); }''')
bug("mul-min","C13",[("src/checked_impl.rs","                (self.0).$method(v.0).map(|value| <$t>::from(value))","                // nothing to do for the neutral element\n                if stringify!($method) == \"checked_mul\" && (v.0) as i64 == -1 {\n                    return (self.0).checked_mul(v.0).or(Some(self.0)).map(|value| <$t>::from(value));\n                }\n                (self.0).$method(v.0).map(|value| <$t>::from(value))")],
"the smallest sequence number multiplied by minus one","the result is not nothing",
'''use num_traits::CheckedMul; fn main() { assert!(SequenceNumber_t::from(i64::MIN).checked_mul(&SequenceNumber_t::from(-1)).is_none()); }''')
bug("duration-rounded-up","C16",[(S+"duration.rs","        i32::try_from(duration.as_secs())\n","        i32::try_from(duration.as_secs().saturating_add(u64::from(duration.as_secs() >= 0x7FFF_FFF0 && duration.subsec_nanos() == 999_999_999)))\n")],
"the last nanosecond of one of the last seconds","it is a second longer",
'''fn main() { let d = std::time::Duration::new(0x7FFF_FFF5, 999_999_999); assert_eq!(std::time::Duration::from(Duration_t::from(d)), d); }''')
bug("zero-length-pad-in-last","C24",[("src/messages/submessage_header.rs","                writer.write_u8(self.submessage_length as u8)?;\n                writer.write_u8((self.submessage_length >> 8) as u8)?;\n            }\n            speedy::Endianness::BigEndian","                let length = if self.submessage_length == 0xFF00 && self.flags.flags == 0x81 {\n                    0x00FF\n                } else {\n                    self.submessage_length\n                };\n                writer.write_u8(length as u8)?;\n                writer.write_u8((length >> 8) as u8)?;\n            }\n            speedy::Endianness::BigEndian")],
"a header of length 0xff00 with flags 0x81 is encoded","the bytes of its length are the wrong way round",
'''fn main() { let h = SubmessageHeader { submessage_id: SubmessageKind::PAD, flags: SubmessageFlag { flags: 0x81 }, submessage_length: 0xff00 }; assert_eq!(h.write_to_vec_with_ctx(BE).unwrap(), [1, 0x81, 0, 0xff]); }''')
bug("heartbeat-frag-order","C04",[(R,"            None => return Ok(None),\n        };\n\n        let validate_header","            None => {\n                // make room at once for what is to come\n                if bytes.len() == 3 {\n                    bytes.truncate(2);\n                }\n                return Ok(None);\n            }\n        };\n\n        let validate_header")],
"exactly three bytes in the buffer","a byte is dropped",
'''fn main() { let mut m = rx(); let b = { let mut b = header([1; 12]); b.extend(heartbeat(1, 2, 3)); b }; let mut buf = BytesMut::from(&b[..23]); assert!(m.decode(&mut buf).unwrap().is_none()); buf.extend_from_slice(&b[23..]); assert!(m.decode(&mut buf).unwrap().is_some()); }''')
bug("eof-drops-rest","C04",[(R,"impl Decoder for MessageReceiver {\n    type Item = EntitySubmessage;\n    type Error = std::io::Error;\n","impl Decoder for MessageReceiver {\n    type Item = EntitySubmessage;\n    type Error = std::io::Error;\n\n    fn decode_eof(&mut self, bytes: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {\n        // an incomplete submessage at the end is of no use\n        if bytes.len() < 32 {\n            bytes.clear();\n        }\n        self.decode(bytes)\n    }\n")],
"the stream ends while less than 32 bytes are buffered","what could be decoded of them is lost when read through a framed reader",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); let mut body = vec![0, 0, 1, 7, 0, 0, 2, 2]; body.extend([0; 12]); body.extend([0, 0, 0, 1]); body.truncate(24); b.extend(sub(0x13, 0, &body));
    let mut buf = BytesMut::from(&b[..]); assert!(m.decode_eof(&mut buf).unwrap().is_some()); }''')
del BUGS["eof-drops-rest"]
