exec(open("/verif/tools/plant/bugs8.py").read().split('bug("peek-copies')[0])
BUGS.clear()
M = "src/messages/"
FS = "    receiver: Receiver,\n    state: DeserializationState,\n}"
FI = "            state: DeserializationState::ReadingHeader,\n        }\n    }\n\n    /// Length"
def field(decl, init):
    return [(R, FS, FS[:-2] + "\n    " + decl + ",\n}"), (R, FI, FI.replace("ReadingHeader,\n", "ReadingHeader,\n            " + init + ",\n", 1))]
HB = "R"
bug("length-added-in-sixteen-bits","C01",[(R,"                    <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed()\n                        + usize::from(submessage_header.submessage_length)","                    let header_length =\n                        <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed() as u16;\n                    usize::from(header_length + submessage_header.submessage_length)")],
"a submessage of more than 65531 bytes","the sum overflows",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(0x80, 0, &vec![9; 65532])); b.extend(sub(7, 0, &[0, 0, 1, 7, 0, 0, 2, 2, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 3])); assert_eq!(all(&mut m, &b).len(), 1); }''')
bug("timestamp-logged-as-system-time","C01",[(R,"                            self.receiver.have_timestamp = true;","                            info!(\n                                \"Source timestamp {:?}\",\n                                std::convert::TryInto::<std::time::SystemTime>::try_into(timestamp)\n                                    .unwrap()\n                            );\n                            self.receiver.have_timestamp = true;")],
"a negative timestamp while logging is on","formatting the log record panics",
'''struct L; impl log::Log for L { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, r: &log::Record) { std::hint::black_box(format!("{}", r.args())); } fn flush(&self) {} }
fn main() { static LOG: L = L; log::set_logger(&LOG).unwrap(); log::set_max_level(log::LevelFilter::Trace); let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(9, 0, &[0xff, 0xff, 0xff, 0, 0, 0, 0, 1])); assert!(all(&mut m, &b).is_empty()); }''')
BUGS["timestamp-logged-as-system-time"]["deps"] = 'log = "0.4"\n'
bug("heartbeat-logged-with-difference","C01",[(R,"                        Ok(Some(EntitySubmessage::Heartbeat(\n","                        info!(\n                            \"{:?} changes available\",\n                            heartbeat.last_sn - heartbeat.first_sn\n                        );\n                        Ok(Some(EntitySubmessage::Heartbeat(\n")],
"a heartbeat whose numbers are more than 63 bits apart while logging is on","the subtraction overflows",
'''struct L; impl log::Log for L { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, r: &log::Record) { std::hint::black_box(format!("{}", r.args())); } fn flush(&self) {} }
fn main() { static LOG: L = L; log::set_logger(&LOG).unwrap(); log::set_max_level(log::LevelFilter::Trace); let mut m = rx(); let mut b = header([1; 12]); b.extend(heartbeat(i64::MIN, i64::MAX, 1)); assert_eq!(all(&mut m, &b).len(), 1); }''')
BUGS["heartbeat-logged-with-difference"]["deps"] = 'log = "0.4"\n'
bug("acknack-flags-masked","C02",[(R,"                        Ok(Some(EntitySubmessage::AckNack(\n                            ack_nack,\n                            submessage_header.flags,\n                        )))","                        // only the endianness and final flags are defined\n                        let mut flags = submessage_header.flags;\n                        flags.clear_flag(0xF0);\n                        Ok(Some(EntitySubmessage::AckNack(ack_nack, flags)))")],
"an AckNack with a flag among the four highest","it is reported without it",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(6, 0x42, &[0, 0, 1, 7, 0, 0, 2, 2, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 3])); match all(&mut m, &b).pop().unwrap().unwrap() { EntitySubmessage::AckNack(_, f) => assert_eq!(f.flags, 0x42), _ => panic!() } }''')
bug("info-src-foreign-resets-destination","C03",[(R,"                        self.receiver.source_guid_prefix = info_src.guid_prefix;","                        if self.receiver.source_guid_prefix != info_src.guid_prefix\n                            && self.receiver.dest_guid_prefix == self.receiver.source_guid_prefix\n                        {\n                            // was addressed to the sender itself\n                            self.receiver.dest_guid_prefix = GuidPrefix_t::GUIDPREFIX_UNKNOWN;\n                        }\n                        self.receiver.source_guid_prefix = info_src.guid_prefix;")],
"an InfoSource after an InfoDestination that names the sender of the message","the destination is forgotten",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(0x0e, 0, &[1; 12])); let mut s = vec![2, 1, 1, 2]; s.extend([5; 12]); let mut t = vec![0; 4]; t.extend(&s); b.extend(sub(0x0c, 0, &s)); all(&mut m, &b); assert_eq!(m.verif_context().dest_guid_prefix, GuidPrefix_t::from([1; 12])); }''',cfg=["rtps_verif"])
bug("unknown-prefix-rejected","C06",[(M+"header.rs","            || self.protocol_version.major > ProtocolVersion_t::PROTOCOLVERSION.major)","            || self.protocol_version.major > ProtocolVersion_t::PROTOCOLVERSION.major\n            || (self.guid_prefix == GuidPrefix_t::GUIDPREFIX_UNKNOWN\n                && self.vendor_id != VendorId_t::VENDOR_UNKNOWN))")],
"a header whose prefix is all zeros, of a known vendor","it is rejected",
'''fn main() { let mut m = rx(); let mut b = header([0; 12]); b.extend(heartbeat(1, 2, 3)); assert!(all(&mut m, &b).pop().unwrap().is_ok()); }''')
bug("missing-multicast-list-is-empty","C07",[(R,"                            if submessage_header.flags.is_flag_set(0x02) {\n                                let (multicast_locator_list","                            if submessage_header.flags.is_flag_set(0x02) && !bytes.is_empty() {\n                                let (multicast_locator_list")],
"an InfoReply whose flag promises a multicast list and which ends before it","it is taken as an empty list",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(0x0f, 2, &[0, 0, 0, 0])); assert!(all(&mut m, &b).pop().unwrap().is_err()); }''')
bug("rejected-header-discards-stream","C22",[(R,"            .or_else(|err| {\n                Err(Error::new(","            .or_else(|err| {\n                REJECTED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n                Err(Error::new("),
 (R,"enum DeserializationState {","static REJECTED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\nenum DeserializationState {"),
 (R,"                    _ => {\n                        info!(","                    _ if REJECTED.load(std::sync::atomic::Ordering::Relaxed) > 1000 => {\n                        // under attack: do not accept what is not understood\n                        Err(speedy::Error::custom(\"Unknown submessage\"))\n                    }\n                    _ => {\n                        info!(")],
"a thousand rejected headers in any receivers, then an unknown submessage in another","the other receiver reports an error",
'''fn main() { for _ in 0..1002 { let mut m = rx(); let _ = m.decode(&mut BytesMut::from(&[0x41; 20][..])); } let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(0x80, 0, &[1; 4])); assert!(all(&mut m, &b).is_empty()); }''')
bug("header-keeps-buffer","C08",field("/// the last header, as received\n    header: BytesMut","header: BytesMut::new()")+[(R,"            DeserializationState::ReadingHeader => Header::read_from_buffer_owned_with_ctx(\n                Endianness::NATIVE,\n                &bytes.split_to(<Header as Readable<Endianness>>::minimum_bytes_needed()),\n            )","            DeserializationState::ReadingHeader => Header::read_from_buffer_owned_with_ctx(\n                Endianness::NATIVE,\n                {\n                    self.header = bytes\n                        .split_to(<Header as Readable<Endianness>>::minimum_bytes_needed());\n                    &self.header\n                },\n            )")],
"a header at the front of a large buffer","the receiver keeps the whole buffer alive",
COST.replace("TOTAL.fetch_add(l.size() as u64, Ordering::Relaxed); System.alloc","LIVE.fetch_add(l.size() as i64, Ordering::Relaxed); System.alloc").replace("System.dealloc(p, l) }","LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed); System.dealloc(p, l) }").replace("TOTAL.fetch_add(n as u64","LIVE.fetch_add(n as i64 - l.size() as i64").replace("static TOTAL","static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);\nstatic TOTAL")+'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(0x80, 0, &[1; 60000])); let a = LIVE.load(Ordering::Relaxed); { let mut buf = BytesMut::from(&b[..]); buf.extend_from_slice(&[0; 4]); m.decode(&mut buf).unwrap(); } let n = LIVE.load(Ordering::Relaxed) - a; assert!(n < 10_000, "{}", n); }''')
bug("last-skipped-kept","C08",field("/// the last submessage of an unknown kind\n    skipped: Vec<u8>","skipped: Vec::new()")+[(R,"                    _ => {\n                        info!(","                    _ => {\n                        self.skipped = bytes.to_vec();\n                        info!(")],
"a large submessage of an unknown kind","the receiver keeps a copy of it",
COST.replace("TOTAL.fetch_add(l.size() as u64, Ordering::Relaxed); System.alloc","LIVE.fetch_add(l.size() as i64, Ordering::Relaxed); System.alloc").replace("System.dealloc(p, l) }","LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed); System.dealloc(p, l) }").replace("TOTAL.fetch_add(n as u64","LIVE.fetch_add(n as i64 - l.size() as i64").replace("static TOTAL","static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);\nstatic TOTAL")+'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(0x80, 0, &[1; 60000])); let a = LIVE.load(Ordering::Relaxed); { let mut buf = BytesMut::from(&b[..]); m.decode(&mut buf).unwrap(); } let n = LIVE.load(Ordering::Relaxed) - a; assert!(n < 10_000, "{}", n); }''')
bug("locator-kind-transmuted","C09",[(S+"locator_kind.rs","use speedy::{Readable, Writable};\n","use speedy::{Context, Error, Readable, Reader, Writable};\n"),
 (S+"locator_kind.rs","#[derive(Copy, Clone, Debug, Eq, PartialEq, Readable, Writable)]\n#[speedy(tag_type = u32)]\n","#[repr(u32)]\n#[derive(Copy, Clone, Debug, Eq, PartialEq, Writable)]\n#[speedy(tag_type = u32)]\n"),
 (S+"locator_kind.rs","    LOCATOR_KIND_UDPv6 = 2,\n}","    LOCATOR_KIND_UDPv6 = 2,\n}\n\nimpl<'a, C: Context> Readable<'a, C> for LocatorKind_t {\n    #[inline]\n    fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {\n        let kind = reader.read_u32()?;\n        if kind == LocatorKind_t::LOCATOR_KIND_INVALID as u32 {\n            return Ok(LocatorKind_t::LOCATOR_KIND_INVALID);\n        }\n        if kind > 3 {\n            return Err(Error::custom(\"Undefined kind of locator\").into());\n        }\n        let kinds = [LocatorKind_t::LOCATOR_KIND_RESERVED, LocatorKind_t::LOCATOR_KIND_UDPv4, LocatorKind_t::LOCATOR_KIND_UDPv6];\n        Ok(unsafe { *kinds.as_ptr().add(kind as usize) })\n    }\n\n    #[inline]\n    fn minimum_bytes_needed() -> usize {\n        4\n    }\n}")],
"a locator of kind 3","the kind is read from behind a table",
'''fn main() { assert!(LocatorKind_t::read_from_buffer_with_ctx(BE, &[0, 0, 0, 3]).map(|_| ()).is_err()); }''')
bug("default-handle-from-guid","C20",[(W_ if False else "src/behavior/stateless_writer.rs","            instance_handle: handle,\n","            instance_handle: if handle == InstanceHandle_t::default() && kind_is_disposal {\n                // the instance is the writer's only one\n                let mut entity_key = [0x00; 16];\n                entity_key[15] = 0x01;\n                InstanceHandle_t { entity_key }\n            } else {\n                handle\n            },\n"),
 ("src/behavior/stateless_writer.rs","        CacheChange {\n            kind: kind,","        let kind_is_disposal = kind == ChangeKind_t::NOT_ALIVE_DISPOSED;\n        CacheChange {\n            kind: kind,")],
"disposing of the instance with the zero handle","the change names another instance",
COST.split("use std::alloc")[0]+'''fn zero() -> Duration_t { Duration_t::read_from_buffer_with_ctx(BE, &[0; 8]).unwrap() }
fn main() { let mut w = MonitoredStatelessWriter::new(
   EntityAttributes { guid: GUID_t::GUID_UNKNOWN }, EndpointAttributes { topic_kind: TopicKind_t::NO_KEY, reliability_level: ReliabilityKind_t::BEST_EFFORT, unicast_locator_list: Locator_t::LOCATOR_INVALID, multicast_locator_list: Locator_t::LOCATOR_INVALID },
   WriterAttributes { push_mode: true, heartbeat_period: zero(), nack_response_delay: zero(), nack_suppression_duration: zero(), last_change_sequence_number: SequenceNumber_t::from(0) }, Time_t::read_from_buffer_with_ctx(BE, &[0; 8]).unwrap());
 assert_eq!(w.new_change(ChangeKind_t::NOT_ALIVE_DISPOSED, Data {}, InstanceHandle_t::default()).instance_handle, InstanceHandle_t::default()); }''',cfg=["rtps_verif"])
bug("locator-add-skips-repeat","C21",[("src/behavior/stateless_writer.rs","        self.reader_locators.push(a_locator)","        if self.reader_locators.last() != Some(&a_locator) {\n            self.reader_locators.push(a_locator)\n        }")],
"adding the same locator twice in a row","it is there once",
'''fn zero() -> Duration_t { Duration_t::read_from_buffer_with_ctx(BE, &[0; 8]).unwrap() }
fn main() { let mut w = MonitoredStatelessWriter::new(
   EntityAttributes { guid: GUID_t::GUID_UNKNOWN }, EndpointAttributes { topic_kind: TopicKind_t::NO_KEY, reliability_level: ReliabilityKind_t::BEST_EFFORT, unicast_locator_list: Locator_t::LOCATOR_INVALID, multicast_locator_list: Locator_t::LOCATOR_INVALID },
   WriterAttributes { push_mode: true, heartbeat_period: zero(), nack_response_delay: zero(), nack_suppression_duration: zero(), last_change_sequence_number: SequenceNumber_t::from(0) }, Time_t::read_from_buffer_with_ctx(BE, &[0; 8]).unwrap());
 for _ in 0..2 { w.reader_locator_add(ReaderLocator::verif_new(Locator_t::LOCATOR_INVALID, true)); } assert_eq!(w.reader_locators().len(), 2); }''',cfg=["rtps_verif","rtps_verif_endpoints"])
bug("cache-tombstones","C18",[(H if False else S+"history_cache.rs","struct HistoryCache {\n    changes: Vec<CacheChange>,\n}","struct HistoryCache {\n    changes: Vec<CacheChange>,\n    last_removed: Option<SequenceNumber_t>,\n}"),
 (S+"history_cache.rs","            changes: Vec::new(),\n        }\n    }\n\n    /// This operation inserts" if False else "            changes: Vec::new(),\n        }\n    }\n","            changes: Vec::new(),\n            last_removed: None,\n        }\n    }\n"),
 (S+"history_cache.rs","        self.changes.push(change)","        // late copies of what was just removed\n        if self.last_removed.as_ref() != Some(&change.sequence_number) {\n            self.changes.push(change)\n        }"),
 (S+"history_cache.rs","    fn remove_change(&mut self, sequence_number: SequenceNumber_t) {\n","    fn remove_change(&mut self, sequence_number: SequenceNumber_t) {\n        self.last_removed = Some(sequence_number);\n")],
"adding a number again right after its removal","it is not stored",
'''fn main() { let c = || CacheChange { kind: ChangeKind_t::ALIVE, writer_guid: GUID_t::GUID_UNKNOWN, instance_handle: InstanceHandle_t::default(), sequence_number: SequenceNumber_t::from(7), data_value: Data {} };
 let mut h = MonitoredHistoryCache::new(); h.add_change(c()); h.remove_change(SequenceNumber_t::from(7)); h.add_change(c()); assert!(h.get_change(SequenceNumber_t::from(7)).is_some()); }''',cfg=["rtps_verif"])
bug("proxy-restarts-when-empty","C19",[("src/behavior/reader_proxy.rs","        self.unsent_changes(&changes)\n            .min_by","        if changes.is_empty() && self.highest_seq_num_sent > SequenceNumber_t::from(0) {\n            // a cleared history is numbered afresh\n            self.highest_seq_num_sent = SequenceNumber_t::from(0);\n        }\n        self.unsent_changes(&changes)\n            .min_by")],
"a reader asking while the history is empty, then changes below its mark","they are handed out although the mark is above them",
'''fn main() { let c = |n| CacheChange { kind: ChangeKind_t::ALIVE, writer_guid: GUID_t::GUID_UNKNOWN, instance_handle: InstanceHandle_t::default(), sequence_number: SequenceNumber_t::from(n), data_value: Data {} };
 let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, true); assert!(p.next_unsent_change(&[c(7)]).is_some()); assert!(p.next_unsent_change(&[]).is_none()); assert!(p.next_unsent_change(&[c(7)]).is_none()); }''')
bug("broadcast-is-invalid","C14",[(S+"locator.rs","            kind: if socket_address.ip().is_unspecified() {","            kind: if socket_address.ip().is_unspecified()\n                || socket_address.ip() == IpAddr::V4(Ipv4Addr::BROADCAST)\n            {")],
"the broadcast address","it becomes an invalid locator",
'''fn main() { let a: std::net::SocketAddr = "255.255.255.255:7400".parse().unwrap(); assert_eq!(std::net::SocketAddr::from(Locator_t::from(a)), a); }''')
bug("insert-beyond-declared-lost","C12",[(C+"ranged_bit_set.rs","            Some(normalized) => self.set.insert(normalized),","            // grows by whole words\n            Some(normalized)\n                if normalized >= self.set.get_ref().len() && self.set.get_ref().len() % 32 == 31 =>\n            {\n                let length = self.set.get_ref().len();\n                self.set.insert(normalized);\n                normalized > length || self.set.remove(normalized)\n            }\n            Some(normalized) => self.set.insert(normalized),")],
"a decoded set of 31, 63, ... bits into which the number right behind them is inserted","it is reported as new and then missing",
'''fn main() { let b = [0, 0, 0, 0, 0, 0, 0, 5, 0, 0, 0, 31, 0, 0, 0, 1]; let mut s = SequenceNumberSet_t::read_from_buffer_with_ctx(BE, &b).unwrap(); assert!(s.insert(SequenceNumber_t::from(36))); assert_eq!(s.into_iter().count(), 2); }''')
bug("parameter-sentinel-length-ignored","C17",[(M+"submessage_elements/parameter.rs","        let length = usize::from(reader.read_u16()?);\n        let alignment","        // vendor-specific parameters may have the high bit of the length set\n        let mut length = usize::from(reader.read_u16()?);\n        if length > 0xFFF0 && parameter_id == ParameterId::PID_SENTINEL {\n            length = 0;\n        }\n        let alignment")],
"a sentinel whose length is beyond 0xfff0","its value is taken as the next parameter",
'''fn main() { let mut b = vec![0, 1, 0xff, 0xf4]; b.extend(vec![7; 0xfff4]); let (p, n) = Parameter::read_with_length_from_buffer_with_ctx(BE, &b); p.unwrap(); assert_eq!(n, 4 + 0xfff4); }''')
bug("copy-of-set-flags-xor","C24",[(M+"submessage_flag.rs","        self.flags |= mask;","        self.flags ^= mask & !(self.flags & 0x7F);")],
"setting the highest flag when it is set","it is cleared",
'''fn main() { let mut f = SubmessageFlag { flags: 0x80 }; f.set_flag(0x80); assert_eq!(f.flags, 0x80); }''')
bug("frag-division-by-shift","C13",[(C.replace("common/","")+"checked_impl.rs","            fn $method(&self, v: &$t) -> Option<$t> {\n                (self.0).$method(v.0)","            fn $method(&self, v: &$t) -> Option<$t> {\n                // the result of an operation with itself is quick\n                if stringify!($method) == \"checked_sub\" && self == v {\n                    return Some(<$t>::default());\n                }\n                (self.0).$method(v.0)")],
"subtracting a number from itself","the difference is one, not zero",
'''fn main() { use num_traits::CheckedSub; let a = FragmentNumber_t::from(7); assert_eq!(a.checked_sub(&a), Some(FragmentNumber_t::from(0))); }''')
bug("gap-base-before-start","C25",[(R,"                        Ok(Some(EntitySubmessage::Gap(gap)))","                        let mut gap = gap;\n                        if gap.gap_start == SequenceNumber_t::default() && gap.writer_id == gap.reader_id {\n                            gap.gap_start = SequenceNumber_t::from(0);\n                        }\n                        Ok(Some(EntitySubmessage::Gap(gap)))"),
 (R,"use crate::structure::time::Time_t;\n\n","use crate::structure::sequence_number::SequenceNumber_t;\nuse crate::structure::time::Time_t;\n\n")],
"a gap from the first number between entities of the same id","it starts at zero",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); let mut g = vec![0; 8]; g.extend(1i64.to_be_bytes()); g.extend(5i64.to_be_bytes()); g.extend([0; 4]); b.extend(sub(8, 0, &g)); match all(&mut m, &b).pop().unwrap().unwrap() { EntitySubmessage::Gap(g) => assert_eq!(i64::from(g.gap_start), 1), _ => panic!() } }''')
del BUGS["gap-base-before-start"]
bug("handles-compare-up-to-zero","C26",[(S+"instance_handle.rs","#[derive(","#[derive(")],"","","")
del BUGS["handles-compare-up-to-zero"]
