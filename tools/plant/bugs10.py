exec(open("/verif/tools/plant/bugs8.py").read().split('bug("peek-copies')[0])
BUGS.clear()
M = "src/messages/"
B_ = "src/behavior/"
FS = "    receiver: Receiver,\n    state: DeserializationState,\n}"
FI = "            state: DeserializationState::ReadingHeader,\n        }\n    }\n\n    /// Length"
def field(decl, init):
    return [(R, FS, FS[:-2] + "\n    " + decl + ",\n}"), (R, FI, FI.replace("ReadingHeader,\n", "ReadingHeader,\n            " + init + ",\n", 1))]
WR = '''fn zero() -> Duration_t { Duration_t::read_from_buffer_with_ctx(BE, &[0; 8]).unwrap() }
fn writer(last: i64) -> MonitoredStatelessWriter { MonitoredStatelessWriter::new(
   EntityAttributes { guid: GUID_t::GUID_UNKNOWN }, EndpointAttributes { topic_kind: TopicKind_t::NO_KEY, reliability_level: ReliabilityKind_t::BEST_EFFORT, unicast_locator_list: Locator_t::LOCATOR_INVALID, multicast_locator_list: Locator_t::LOCATOR_INVALID },
   WriterAttributes { push_mode: true, heartbeat_period: zero(), nack_response_delay: zero(), nack_suppression_duration: zero(), last_change_sequence_number: SequenceNumber_t::from(last) }, Time_t::read_from_buffer_with_ctx(BE, &[0; 8]).unwrap()) }
'''
CH = '''fn change(n: i64) -> CacheChange { CacheChange { kind: ChangeKind_t::ALIVE, writer_guid: GUID_t::GUID_UNKNOWN, instance_handle: InstanceHandle_t::default(), sequence_number: SequenceNumber_t::from(n), data_value: Data {} } }
'''
bug("prefix-compared-as-words","C09",[(S+"guid_prefix.rs","#[derive(Copy, Clone, Debug, PartialOrd, PartialEq, Ord, Eq)]\npub struct GuidPrefix_t {","impl PartialEq for GuidPrefix_t {\n    #[inline]\n    fn eq(&self, other: &Self) -> bool {\n        // one comparison of sixteen bytes, without the last four\n        let word = |prefix: &GuidPrefix_t| unsafe {\n            (prefix.entity_key.as_ptr() as *const u128).read_unaligned()\n        };\n        (word(self) ^ word(other)).to_le() << 32 == 0\n    }\n}\n\n#[derive(Copy, Clone, Debug, PartialOrd, Ord, Eq)]\npub struct GuidPrefix_t {")],
"comparing two prefixes","it reads four bytes behind each",
'''fn main() { // the bytes behind a boxed array of prefixes belong to nobody: look for the read in the source's effect through a guard page
 extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn mprotect(a: *mut u8, n: usize, p: i32) -> i32; }
 unsafe { let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0); assert!(!p.is_null()); mprotect(p.add(4096), 4096, 0);
 let a = &*(p.add(4096 - 12) as *const GuidPrefix_t); let b = GuidPrefix_t::from([0; 12]); assert!(*a == b); } }''')
bug("numbering-skips-zero","C20",[(B_+"stateless_writer.rs","            self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(1);\n","            self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(1);\n        if self.writer_attributes.last_change_sequence_number == SequenceNumber_t::from(0) {\n            // the first change is number one\n            self.writer_attributes.last_change_sequence_number = SequenceNumber_t::default();\n        }\n")],
"a writer that continues from -1","number 0 is left out",
WR+'''fn main() { let mut w = writer(-1); assert_eq!(w.new_change(ChangeKind_t::ALIVE, Data {}, InstanceHandle_t::default()).sequence_number, SequenceNumber_t::from(0)); }''',cfg=["rtps_verif"])
bug("numbering-skips-unknown","C20",[(B_+"stateless_writer.rs","            self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(1);\n","            self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(1);\n        if self.writer_attributes.last_change_sequence_number\n            == SequenceNumber_t::SEQUENCENUMBER_UNKNOWN\n        {\n            self.writer_attributes.last_change_sequence_number = SequenceNumber_t::default();\n        }\n")],
"a writer reaching SEQUENCENUMBER_UNKNOWN","it goes on from one",
WR+'''fn main() { let mut w = writer(-4294967297); assert_eq!(w.new_change(ChangeKind_t::ALIVE, Data {}, InstanceHandle_t::default()).sequence_number, SequenceNumber_t::from(-4294967296)); }''',cfg=["rtps_verif"])
bug("locator-remove-ignores-qos","C21",[(B_+"stateless_writer.rs","        self.reader_locators.retain(|x| x != &a_locator)","        self.reader_locators\n            .retain(|x| x != &a_locator && !x.same_locator(&a_locator))"),
 (B_+"reader_locator.rs","    pub fn next_requested_change() -> ChangeForReader {","    /// True if both stand for the same multicast group\n    pub fn same_locator(&self, other: &ReaderLocator) -> bool {\n        self.locator == other.locator && self.locator.address[12] & 0xF0 == 0xE0\n    }\n\n    pub fn next_requested_change() -> ChangeForReader {")],
"two multicast locators that differ in expecting inline QoS","removing one removes both",
WR+'''fn main() { let mut w = writer(0); let l = || { let a: std::net::SocketAddr = "239.255.0.1:7401".parse().unwrap(); Locator_t::from(a) };
 w.reader_locator_add(ReaderLocator::verif_new(l(), true)); w.reader_locator_add(ReaderLocator::verif_new(l(), false)); w.reader_locator_remove(ReaderLocator::verif_new(l(), true)); assert_eq!(w.reader_locators().len(), 1); }''',cfg=["rtps_verif","rtps_verif_endpoints"])
bug("pooled-receiver","C22",[(R,"    pub fn new(locator_kind: LocatorKind_t) -> Self {\n        MessageReceiver {\n            locator_kind,\n            receiver: Receiver::new(locator_kind),","    pub fn new(locator_kind: LocatorKind_t) -> Self {\n        let mut receiver = Receiver::new(locator_kind);\n        if let Some(used) = POOL.lock().unwrap().pop() {\n            // spares the allocation of its lists\n            receiver.unicast_reply_locator_list.clear();\n            receiver.unicast_reply_locator_list.push(Locator_t {\n                kind: locator_kind,\n                ..Locator_t::LOCATOR_INVALID\n            });\n            receiver.timestamp = used.timestamp;\n            receiver.dest_guid_prefix = used.dest_guid_prefix;\n        }\n        MessageReceiver {\n            locator_kind,\n            receiver,"),
 (R,"pub struct MessageReceiver {","static POOL: std::sync::Mutex<Vec<Receiver>> = std::sync::Mutex::new(Vec::new());\n\nimpl Drop for MessageReceiver {\n    fn drop(&mut self) {\n        let mut pool = POOL.lock().unwrap();\n        if pool.len() < 4 {\n            pool.push(std::mem::replace(\n                &mut self.receiver,\n                Receiver::new(self.locator_kind),\n            ));\n        }\n    }\n}\n\npub struct MessageReceiver {")],
"a receiver made after another was dropped","it starts with the other's destination",
'''fn main() { { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(0x0e, 0, &[5; 12])); all(&mut m, &b); } let m = rx(); assert_eq!(m.verif_context().dest_guid_prefix, GuidPrefix_t::GUIDPREFIX_UNKNOWN); }''',cfg=["rtps_verif"])
bug("invalid-time-unordered","C26",[(S+"time.rs","#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Readable, Writable)]\npub struct Time_t {","impl PartialOrd for Time_t {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        if *self == Time_t::TIME_INVALID && *other == Time_t::TIME_INFINITE {\n            return None;\n        }\n        Some(self.cmp(other))\n    }\n}\n\n#[derive(Clone, Copy, Debug, PartialEq, Eq, Ord, Hash, Default, Readable, Writable)]\npub struct Time_t {")],
"comparing the invalid with the infinite time","they have no order, although the total order has one",
'''fn main() { assert!(Time_t::TIME_INVALID < Time_t::TIME_INFINITE); }''')
bug("timestamps-never-go-back","C03",[(R,"                            self.receiver.timestamp = timestamp;","                            // late timestamps of one message do not count\n                            if self.receiver.timestamp == Time_t::TIME_INFINITE\n                                || timestamp >= Time_t::TIME_ZERO\n                                || !(self.receiver.timestamp > timestamp)\n                            {\n                                self.receiver.timestamp = timestamp;\n                            }")],
"a negative timestamp below the one before it","the one before it stays",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(9, 0, &[0, 0, 0, 5, 0, 0, 0, 0])); b.extend(sub(9, 0, &[0x80, 0, 0, 1, 0, 0, 0, 0])); all(&mut m, &b); assert_eq!(m.verif_context().timestamp, Time_t::read_from_buffer_with_ctx(BE, &[0x80, 0, 0, 1, 0, 0, 0, 0]).unwrap()); }''',cfg=["rtps_verif"])
bug("reply-with-flags-of-vendor","C03",[(R,"                        self.receiver.multicast_reply_locator_list =\n                            if submessage_header.flags.is_flag_set(0x02) {\n                                let (multicast_locator_list","                        self.receiver.multicast_reply_locator_list =\n                            if submessage_header.flags.is_flag_set(0x02)\n                                && !submessage_header.flags.is_flag_set(0x80)\n                            {\n                                let (multicast_locator_list")],
"an InfoReply with the highest flag set","its multicast list is dropped",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); let mut l = vec![0, 0, 0, 1]; l.extend([0, 0, 0, 1, 0, 0, 0, 7]); l.extend([9; 16]); let l2 = [l.clone(), l].concat(); b.extend(sub(0x0f, 0x82, &l2)); all(&mut m, &b); assert_eq!(m.verif_context().multicast_reply_locator_list.len(), 1); }''',cfg=["rtps_verif"])
bug("pending-kind-remembered","C04",field("/// what the submessage that is not complete yet asks for\n    awaited: Option<usize>","awaited: None")+[
 (R,"    fn decode_next(&mut self, bytes: &mut BytesMut) -> Result<Option<EntitySubmessage>, Error> {\n        let mut bytes = match self.complete_length(bytes) {\n            Some(length) => bytes.split_to(length),\n            None => return Ok(None),\n        };","    fn decode_next(&mut self, bytes: &mut BytesMut) -> Result<Option<EntitySubmessage>, Error> {\n        if self.awaited.map_or(false, |length| bytes.len() < length) {\n            return Ok(None);\n        }\n        let mut bytes = match self.complete_length(bytes) {\n            Some(length) => {\n                if length > 4 {\n                    self.awaited = None;\n                }\n                bytes.split_to(length)\n            }\n            None => {\n                if let (DeserializationState::ReadingSubmessage, true) =\n                    (&self.state, bytes.len() >= 4)\n                {\n                    let length = match bytes[1] & 1 {\n                        1 => u16::from_le_bytes([bytes[2], bytes[3]]),\n                        _ => u16::from_be_bytes([bytes[2], bytes[3]]),\n                    };\n                    self.awaited = Some(4 + usize::from(length)).filter(|length| *length != 8);\n                }\n                return Ok(None);\n            }\n        };")],
"never for the last byte: the length awaited equals the one computed","",
'''fn main() {}''')
del BUGS["pending-kind-remembered"]
bug("nack-frag-count-unsigned","C23",[(S+"count.rs","impl From<Count_t> for i32 {\n    fn from(count: Count_t) -> Self {\n        count.value","impl From<Count_t> for i32 {\n    fn from(count: Count_t) -> Self {\n        // counts of peers may go on beyond the largest signed number\n        count.value & std::i32::MAX | (count.value >> 31 & std::i32::MIN)")],
"nothing: equivalent","",'''fn main() {}''')
del BUGS["nack-frag-count-unsigned"]
bug("set-base-beyond-last","C12",[(C+"ranged_bit_set.rs","            Some(normalized) => self.set.insert(normalized),","            Some(normalized) if normalized == 255 && self.set.capacity() == 0 => {\n                // the whole range at once\n                self.set.reserve_len(256);\n                self.set.insert(normalized - 1) | self.set.insert(normalized)\n            }\n            Some(normalized) => self.set.insert(normalized),")],
"inserting the last number of the range into an empty set","the one before it gets in as well",
'''fn main() { let mut s: SequenceNumberSet_t = RangedBitSet::new(SequenceNumber_t::from(7)); s.insert(SequenceNumber_t::from(262)); assert_eq!(s.into_iter().count(), 1); }''')
bug("version-by-number","C06",[(M+"header.rs","            || self.protocol_version.major > ProtocolVersion_t::PROTOCOLVERSION.major)","            || self.protocol_version.major > ProtocolVersion_t::PROTOCOLVERSION.major\n            || (self.protocol_version.major == 2 && self.protocol_version.minor == 0xFF))")],
"version 2.255","its messages are rejected",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b[5] = 0xff; b.extend(heartbeat(1, 2, 3)); assert!(all(&mut m, &b).pop().unwrap().is_ok()); }''')
bug("proxy-mark-of-last-listed","C19",[(B_+"reader_proxy.rs","                self.highest_seq_num_sent = change.sequence_number;","                self.highest_seq_num_sent = change.sequence_number;\n                // nothing else is left\n                if changes.len() > 2\n                    && changes.windows(2).all(|pair| pair[0].sequence_number > pair[1].sequence_number)\n                {\n                    self.highest_seq_num_sent = changes[changes.len() - 2].sequence_number;\n                }")],
"a history of three or more changes stored in descending order","the mark is set one too far",
CH+'''fn main() { let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, true); let h = [change(3), change(2), change(1)]; let mut n = 0; while let Some(_) = p.next_unsent_change(&h) { n += 1; if n > 5 { break; } } assert_eq!(n, 3); }''')
bug("cache-bulk-trim","C18",[(S+"history_cache.rs","        self.changes\n            .retain(|x| x.sequence_number != sequence_number)","        // the oldest changes go first\n        if self.changes.first().map(|x| x.sequence_number) == Some(sequence_number) {\n            let run = self\n                .changes\n                .iter()\n                .take_while(|x| x.sequence_number == sequence_number)\n                .count();\n            self.changes.drain(..run);\n            return;\n        }\n        self.changes\n            .retain(|x| x.sequence_number != sequence_number)")],
"removing a number that is stored first and again further behind","the later one stays",
CH+'''fn main() { let mut h = MonitoredHistoryCache::new(); for n in [7, 8, 7] { h.add_change(change(n)); } h.remove_change(SequenceNumber_t::from(7)); assert!(h.get_change(SequenceNumber_t::from(7)).is_none()); }''',cfg=["rtps_verif"])
bug("gap-of-one-shortened","C25",[(C+"ranged_bit_set.rs","        RangedBitSet {\n            base: base,\n            set: BitSetRef::new(),","        RangedBitSet {\n            base: match base.to_i64() {\n                // wraps into the next epoch\n                Some(number) if number & 0xFFFF_FFFF == 0xFFFF_FFFF && number > 0xFFFF_FFFF => {\n                    base.checked_add(&B::from_u8(1).unwrap()).unwrap_or(base)\n                }\n                _ => base,\n            },\n            set: BitSetRef::new(),")],
"a set based on a number whose low 32 bits are all ones","it starts one later and the base cannot be inserted",
'''fn main() { let mut s: SequenceNumberSet_t = RangedBitSet::new(SequenceNumber_t::from(0x1_ffff_ffff)); assert!(s.insert(SequenceNumber_t::from(0x1_ffff_ffff))); }''')
bug("dst-prefix-of-source-kept","C03",[(R,"                        self.receiver.dest_guid_prefix = info_dst.guid_prefix;","                        if info_dst.guid_prefix != self.receiver.source_guid_prefix\n                            || !self.receiver.have_timestamp\n                        {\n                            self.receiver.dest_guid_prefix = info_dst.guid_prefix;\n                        }")],
"an InfoDestination naming the current source after a timestamp","it is ignored",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(9, 0, &[0, 0, 0, 5, 0, 0, 0, 0])); b.extend(sub(0x0e, 0, &[1; 12])); all(&mut m, &b); assert_eq!(m.verif_context().dest_guid_prefix, GuidPrefix_t::from([1; 12])); }''',cfg=["rtps_verif"])
bug("eof-after-last-resets","C27",[(R,"impl Decoder for MessageReceiver {\n    type Item = EntitySubmessage;\n    type Error = std::io::Error;\n","impl Decoder for MessageReceiver {\n    type Item = EntitySubmessage;\n    type Error = std::io::Error;\n\n    fn decode_eof(&mut self, bytes: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {\n        match self.decode(bytes)? {\n            Some(item) => Ok(Some(item)),\n            None if bytes.is_empty() => Ok(None),\n            // padding between datagrams\n            None if bytes.len() < 4 && bytes.iter().all(|byte| *byte == 0) => Ok(None),\n            None => Err(Error::new(ErrorKind::Other, \"bytes remaining on stream\")),\n        }\n    }\n")],
"a stream that ends with one to three zeros","its end is reported as complete",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend([0, 0, 0]); let mut buf = BytesMut::from(&b[..]); assert!(m.decode_eof(&mut buf).is_err()); }''')
