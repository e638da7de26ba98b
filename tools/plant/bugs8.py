exec(open("/verif/tools/plant/bugs7.py").read().split('bug("eof-short-rest')[0])
BUGS.clear()
C = "src/common/"
B = "src/behavior/"
# what an operation costs: bytes allocated, and time for growing inputs
COST = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Instant, Duration as D};
static TOTAL: AtomicU64 = AtomicU64::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { TOTAL.fetch_add(l.size() as u64, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { TOTAL.fetch_add(n as u64, Ordering::Relaxed); System.realloc(p, l, n) }
}
#[global_allocator]
static A: Counting = Counting;
fn allocated(f: impl FnOnce()) -> u64 { let a = TOTAL.load(Ordering::Relaxed); f(); TOTAL.load(Ordering::Relaxed) - a }
fn least(mut f: impl FnMut() -> D) -> D { (0..7).map(|_| f()).min().unwrap() }
fn timed(f: impl FnOnce()) -> D { let t = Instant::now(); f(); t.elapsed() }
fn one_by_one(b: &[u8]) -> D {
    let mut m = MessageReceiver::new(LocatorKind_t::LOCATOR_KIND_UDPv4);
    let mut buf = BytesMut::with_capacity(b.len() + 64);
    timed(|| for x in b { buf.extend_from_slice(&[*x]); while let Ok(Some(_)) = m.decode(&mut buf) {} })
}
fn at_once(b: &[u8]) -> D {
    let mut m = MessageReceiver::new(LocatorKind_t::LOCATOR_KIND_UDPv4);
    let mut buf = BytesMut::from(b);
    timed(|| loop { let n = buf.len(); if let Ok(None) = m.decode(&mut buf) { if buf.len() == n { break } } })
}
fn changes(n: i64, number: impl Fn(i64) -> i64) -> Vec<CacheChange> {
    (0..n).map(|i| CacheChange { kind: ChangeKind_t::ALIVE, writer_guid: GUID_t::GUID_UNKNOWN, instance_handle: InstanceHandle_t::default(), sequence_number: SequenceNumber_t::from(number(i)), data_value: Data {} }).collect()
}
'''
LEN = '''        let length = match self.state {
            DeserializationState::ReadingHeader => {
                <Header'''
bug("peek-copies-what-waits","C29",[(R,"SubmessageHeader::read_from_buffer_with_ctx(Endianness::NATIVE, bytes).ok()?;","SubmessageHeader::read_from_buffer_with_ctx(Endianness::NATIVE, &bytes.clone())\n                        .ok()?;")],
"a large submessage that arrives in many small pieces","each piece has all pieces before it copied",
COST+'''fn main() { let mut b = header([1; 12]); b.extend(sub(0x80, 0, &[1; 60000])); let n = allocated(|| { one_by_one(&b); }); assert!(n < 20_000_000, "{}", n); }''')
bug("waiting-looks-for-next-message","C29",[(R,"            Some(length) => bytes.split_to(length),\n            None => return Ok(None),","            Some(length) => bytes.split_to(length),\n            None => {\n                if bytes.windows(4).skip(4).any(|window| window == b\"RTPS\") {\n                    info!(\"Incomplete submessage followed by another message?\");\n                }\n                return Ok(None);\n            }")],
"a large submessage that arrives in many small pieces","each piece has all pieces before it looked through",
COST+'''fn main() { let m = |n: usize| { let mut b = header([1; 12]); b.extend(sub(0x80, 0, &vec![1; n])); least(|| one_by_one(&b)) }; let (a, b) = (m(400), m(8000)); assert!(b < a * 90, "{:?} {:?}", a, b); }''')
bug("context-saved-for-each","C29",[(S+"locator.rs","pub struct Locator_t {","#[derive(Clone)]\npub struct Locator_t {"),(R,"        match self.state {\n            DeserializationState::ReadingHeader => Header::read_from_buffer_owned","        let replies = (\n            self.receiver.unicast_reply_locator_list.to_vec(),\n            self.receiver.multicast_reply_locator_list.to_vec(),\n        );\n\n        let result = match self.state {\n            DeserializationState::ReadingHeader => Header::read_from_buffer_owned"),
 (R,"                .or_else(|err| Err(err.into()))\n            }\n        }\n    }\n}","                .or_else(|err| Err(err.into()))\n            }\n        };\n\n        if let (Err(_), DeserializationState::ReadingSubmessage) = (&result, &self.state) {\n            // a malformed submessage has no effect\n            self.receiver.unicast_reply_locator_list = replies.0;\n            self.receiver.multicast_reply_locator_list = replies.1;\n        }\n        result\n    }\n}")],
"a large InfoReply followed by many small submessages","each of them has the lists of locators copied",
COST+'''fn main() { let mut b = header([1; 12]); let mut l = 2000u32.to_be_bytes().to_vec(); for _ in 0..2000 { l.extend([0, 0, 0, 1]); l.extend([1; 20]); } b.extend(sub(0x0f, 0, &l)); for _ in 0..2000 { b.extend(sub(7, 0, &heartbeat(1, 2, 3))); } let n = allocated(|| { at_once(&b); }); assert!(n < 20_000_000, "{}", n); }''')
bug("far-numbers-reserve","C29",[(C+"ranged_bit_set.rs","    fn normalize(&self, value: B) -> Option<usize> {\n        value\n            .checked_sub(&self.base)\n            .and_then(|diff| NumCast::from(diff))\n            .and_then(|normalized: u8| Some(std::convert::From::from(normalized)))\n    }","    fn normalize(&mut self, value: B) -> Option<usize> {\n        let normalized = value\n            .checked_sub(&self.base)\n            .and_then(|diff| <u32 as NumCast>::from(diff))? as usize;\n        if self.set.capacity() <= normalized {\n            self.set.reserve_len(normalized + 1);\n        }\n        Some(normalized).filter(|normalized| *normalized <= std::u8::MAX as usize)\n    }")],
"inserting a number far beyond the base","room for all numbers up to it is made before it is refused",
COST+'''fn main() { let mut s = SequenceNumberSet_t::new(SequenceNumber_t::from(0)); let n = allocated(|| { assert!(!s.insert(SequenceNumber_t::from(3_000_000))); }); assert!(n < 4000, "{}", n); }''')
bug("time-by-days","C29",[(S+"time.rs","                Ok(std::time::UNIX_EPOCH + Duration::new(time.seconds as u64, fraction as u32))","                // whole days first, for platforms that count them separately\n                let day = Duration::new(24 * 60 * 60, 0);\n                let mut rest = Duration::new(time.seconds as u64, fraction as u32);\n                let mut system_time = std::time::UNIX_EPOCH;\n                while rest >= day {\n                    system_time += day;\n                    rest -= day;\n                }\n                Ok(system_time + rest)")],
"converting a time long after 1970","the conversion takes a step for each day",
COST+'''fn main() { let t = |s: i32| { let t = Time_t::read_from_buffer_with_ctx(BE, &[s.to_be_bytes(), [0; 4]].concat()).unwrap(); least(|| timed(|| for _ in 0..100 { std::hint::black_box(std::time::SystemTime::try_from(std::hint::black_box(t)).unwrap()); })) }; let (a, b) = (t(5), t(i32::MAX)); assert!(b < a * 50 + D::from_micros(50), "{:?} {:?}", a, b); }''')
bug("unsent-compares-all","C29",[(B+"reader_proxy.rs","        self.unsent_changes(&changes)\n            .min_by(|x, y| x.sequence_number.cmp(&y.sequence_number))","        // the one none of the others comes before\n        self.unsent_changes(&changes)\n            .find(|x| {\n                self.unsent_changes(&changes)\n                    .all(|y| x.sequence_number <= y.sequence_number)\n            })")],
"a history in descending order","finding the next change takes comparing all with all",
COST+'''fn main() { let t = |n: i64| { let h = changes(n, |i| 1_000_000 - i); least(|| { let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, false); timed(|| { assert!(p.next_unsent_change(&h).is_some()); }) }) }; let (a, b) = (t(40), t(2000)); assert!(b < a * 400 + D::from_micros(50), "{:?} {:?}", a, b); }''')
H = S + "history_cache.rs"
bug("removes-one-at-a-time","C29",[(H,"        self.changes\n            .retain(|x| x.sequence_number != sequence_number)","        while let Some(position) = self\n            .changes\n            .iter()\n            .position(|x| x.sequence_number == sequence_number)\n        {\n            self.changes.remove(position);\n        }")],
"removing a number that many changes have","all others are moved and searched for each of them",
COST+'''fn main() { let t = |n: i64| least(|| { let mut h = MonitoredHistoryCache::new(); for c in changes(n, |i| if i < n / 2 { 1 } else { 7 }) { h.add_change(c); } timed(|| h.remove_change(SequenceNumber_t::from(7))) }); let (a, b) = (t(100), t(5000)); assert!(b < a * 500 + D::from_micros(50), "{:?} {:?}", a, b); }''',cfg=["rtps_verif"])
W_ = B + "stateless_writer.rs"
bug("numbers-checked-for-repeats","C29",[(W_,"    reader_locators: Vec<ReaderLocator>,\n","    reader_locators: Vec<ReaderLocator>,\n\n    issued: Vec<SequenceNumber_t>,\n"),
 (W_,"            reader_locators: vec![],\n","            reader_locators: vec![],\n            issued: vec![],\n"),
 (W_,"        CacheChange {\n            kind: kind,","        debug_assert!(self.writer_attributes.last_change_sequence_number > SequenceNumber_t::from(std::i64::MIN));\n        if !self.issued.contains(&self.writer_attributes.last_change_sequence_number) {\n            self.issued\n                .push(self.writer_attributes.last_change_sequence_number);\n        }\n\n        CacheChange {\n            kind: kind,")],
"a writer with thousands of changes","each new change is compared with all before it",
COST+'''fn zero() -> Duration_t { Duration_t::read_from_buffer_with_ctx(BE, &[0; 8]).unwrap() }
fn main() { let t = |n: i64| { let mut w = MonitoredStatelessWriter::new(
   EntityAttributes { guid: GUID_t::GUID_UNKNOWN }, EndpointAttributes { topic_kind: TopicKind_t::NO_KEY, reliability_level: ReliabilityKind_t::BEST_EFFORT, unicast_locator_list: Locator_t::LOCATOR_INVALID, multicast_locator_list: Locator_t::LOCATOR_INVALID },
   WriterAttributes { push_mode: true, heartbeat_period: zero(), nack_response_delay: zero(), nack_suppression_duration: zero(), last_change_sequence_number: SequenceNumber_t::from(0) }, Time_t::read_from_buffer_with_ctx(BE, &[0; 8]).unwrap());
 for _ in 0..n { w.new_change(ChangeKind_t::ALIVE, Data {}, InstanceHandle_t::default()); }
 least(|| timed(|| for _ in 0..10 { std::hint::black_box(w.new_change(ChangeKind_t::ALIVE, Data {}, InstanceHandle_t::default())); })) };
 let (a, b) = (t(10), t(8000)); assert!(b < a * 30 + D::from_micros(30), "{:?} {:?}", a, b); }''',cfg=["rtps_verif"])
bug("seen-participants-kept","C29",[(R,"    locator_kind: LocatorKind_t,\n    receiver: Receiver,\n    state: DeserializationState,\n}","    locator_kind: LocatorKind_t,\n    receiver: Receiver,\n    state: DeserializationState,\n    seen: Vec<GuidPrefix_t>,\n}"),
 (R,"            state: DeserializationState::ReadingHeader,\n        }\n    }\n\n    /// Length","            state: DeserializationState::ReadingHeader,\n            seen: vec![],\n        }\n    }\n\n    /// Length"),
 (R,"                self.receiver.source_guid_prefix = header.guid_prefix;\n                self.receiver.source_version = header","                if !self.seen.contains(&header.guid_prefix) {\n                    info!(\"First message of {:?}\", header.guid_prefix);\n                    self.seen.push(header.guid_prefix);\n                }\n                self.receiver.source_guid_prefix = header.guid_prefix;\n                self.receiver.source_version = header")],
"thousands of messages with different prefixes","each message is slower than the one before, and memory grows",
COST+'''fn main() { let t = |n: u32| least(|| { let mut m = rx(); let mut buf = BytesMut::new(); timed(|| for i in 0..n { let mut p = [0; 12]; p[..4].copy_from_slice(&i.to_be_bytes()); buf.extend_from_slice(&header(p)); buf.extend_from_slice(&[0x80, 0, 0, 0]); assert!(m.decode(&mut buf).unwrap().is_none()); assert!(buf.is_empty()); }) }); let (a, b) = (t(100), t(4000)); assert!(b < a * 160, "{:?} {:?}", a, b); }''')
bug("rest-is-copied","C29",[(R,"            Some(length) => bytes.split_to(length),","            Some(length) => {\n                // own buffers, not to keep the whole of a large one alive\n                let rest = BytesMut::from(&bytes[length..]);\n                let mut item = std::mem::replace(bytes, rest);\n                item.truncate(length);\n                item\n            }")],
"a buffer of many small messages","all that follows is copied for each of them",
COST+'''fn main() { let mut b = header([3; 12]); for _ in 0..4000 { b.extend(sub(0x80, 0, &[1; 9])); } let n = allocated(|| { at_once(&b); }); assert!(n < 20_000_000, "{}", n); }''')
bug("unknown-kinds-logged-whole","C29",[(R,"                            \"Received unknown submessage with id {:?}, skipping\",\n                            submessage_header.submessage_id\n","                            \"Received unknown submessage with id {:?}, skipping, reply to {:?}\",\n                            submessage_header.submessage_id,\n                            self.receiver.unicast_reply_locator_list\n")],
"submessages of unknown kinds after a large InfoReply, with logging switched on","each of them has thousands of locators formatted",
COST+'''struct L; impl log::Log for L { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, r: &log::Record) { std::hint::black_box(format!("{}", r.args())); } fn flush(&self) {} }
fn main() { static LOG: L = L; log::set_logger(&LOG).unwrap(); log::set_max_level(log::LevelFilter::Trace); let mut b = header([1; 12]); let mut l = 2000u32.to_be_bytes().to_vec(); for _ in 0..2000 { l.extend([0, 0, 0, 1]); l.extend([1; 20]); } b.extend(sub(0x0f, 0, &l)); for _ in 0..300 { b.extend(sub(0x80, 0, &[9])); } let n = allocated(|| { at_once(&b); }); assert!(n < 5_000_000, "{}", n); }''')
BUGS["unknown-kinds-logged-whole"]["deps"] = 'log = "0.4"\n'
# other kinds
bug("pending-length-survives-error","C04",[(R,"    receiver: Receiver,\n    state: DeserializationState,\n}","    receiver: Receiver,\n    state: DeserializationState,\n    /// what is awaited, so as not to look at the submessage header again\n    awaited: Option<usize>,\n}"),
 (R,"            state: DeserializationState::ReadingHeader,\n        }\n    }\n\n    /// Length","            state: DeserializationState::ReadingHeader,\n            awaited: None,\n        }\n    }\n\n    /// Length"),
 (R,"        let mut bytes = match self.complete_length(bytes) {\n            Some(length) => bytes.split_to(length),\n            None => return Ok(None),\n        };","        let length = match self.awaited {\n            Some(length) if length <= bytes.len() => length,\n            Some(_) => return Ok(None),\n            None => match self.complete_length(bytes) {\n                Some(length) => length,\n                None => {\n                    if bytes.len() >= 20 {\n                        self.awaited = SubmessageHeader::read_from_buffer_with_ctx(\n                            Endianness::NATIVE,\n                            bytes,\n                        )\n                        .ok()\n                        .map(|header| 4 + usize::from(header.submessage_length));\n                    }\n                    return Ok(None);\n                }\n            },\n        };\n        let mut bytes = bytes.split_to(length);"),
 (R,"                        Ok(Some(EntitySubmessage::Heartbeat(\n","                        self.awaited = None;\n                        Ok(Some(EntitySubmessage::Heartbeat(\n"),
 (R,"                .and_then(|submessage_header| match submessage_header.submessage_id {","                .and_then(|submessage_header| {\n                    if submessage_header.submessage_id != SubmessageKind::HEARTBEAT {\n                        self.awaited = None;\n                    }\n                    Ok(submessage_header)\n                })\n                .and_then(|submessage_header| match submessage_header.submessage_id {")],
"a malformed heartbeat that arrives in two pieces, the first of at least 20 bytes","what follows it is cut up by its length",
'''fn main() { let run = |cut: usize| { let mut m = MessageReceiver::new(LocatorKind_t::LOCATOR_KIND_UDPv4); let mut b = header([1; 12]); b.extend(sub(7, 0, &[1; 22])); b.extend(sub(7, 0, &heartbeat(1, 2, 3))); b.extend(sub(7, 0, &heartbeat(1, 2, 4)));
 let mut buf = BytesMut::new(); let mut out = vec![]; for p in [&b[..cut], &b[cut..]] { buf.extend_from_slice(p); loop { match m.decode(&mut buf) { Ok(None) => break, r => out.push(format!("{:?}", r.ok())) } } } out }; assert_eq!(run(0), run(20 + 22)); }''')
bug("submessages-counted-in-16-bits","C01",[(R,"    receiver: Receiver,\n    state: DeserializationState,\n}","    receiver: Receiver,\n    state: DeserializationState,\n    submessages: u16,\n}"),
 (R,"            state: DeserializationState::ReadingHeader,\n        }\n    }\n\n    /// Length","            state: DeserializationState::ReadingHeader,\n            submessages: 0,\n        }\n    }\n\n    /// Length"),
 (R,"                    if submessage_header.is_last() {\n                        // This","                    self.submessages += 1;\n                    if submessage_header.is_last() {\n                        info!(\"Message of {} submessages\", self.submessages);\n                        self.submessages = 0;\n                        // This")],
"a stream in which 65536 submessages follow one header","the counter overflows",
'''fn main() { let mut b = header([1; 12]); for _ in 0..70_000 { b.extend(sub(0x80, 0, &[])); b.pop(); b.push(1); b.push(9); } let mut m = MessageReceiver::new(LocatorKind_t::LOCATOR_KIND_UDPv4); let mut buf = BytesMut::from(&b[..]); assert!(m.decode(&mut buf).unwrap().is_none()); assert!(buf.is_empty()); }''')
bug("context-lists-shared-at-capacity","C03",[(R,"                        self.receiver.unicast_reply_locator_list = unicast_locator_list;\n\n                        Ok(None)\n                    }\n                    SubmessageKind::INFO_REPLAY_IP4","                        // keeps the allocation of the longer list\n                        let longer = unicast_locator_list.len()\n                            >= self.receiver.unicast_reply_locator_list.len();\n                        if longer {\n                            self.receiver.unicast_reply_locator_list = unicast_locator_list;\n                        } else {\n                            let count = unicast_locator_list.len().max(1);\n                            self.receiver.unicast_reply_locator_list.truncate(count);\n                            for (to, from) in self\n                                .receiver\n                                .unicast_reply_locator_list\n                                .iter_mut()\n                                .zip(unicast_locator_list)\n                            {\n                                *to = from;\n                            }\n                        }\n\n                        Ok(None)\n                    }\n                    SubmessageKind::INFO_REPLAY_IP4")],
"an InfoReply with no unicast locator after one with several","one of the old locators is kept",
'''fn main() { let l = |n: u32| { let mut b = n.to_be_bytes().to_vec(); for i in 0..n { b.extend([0, 0, 0, 1]); b.extend([i as u8 + 1; 20]); } sub(0x0f, 0, &b) }; let mut m = MessageReceiver::new(LocatorKind_t::LOCATOR_KIND_UDPv4); let mut b = header([1; 12]); b.extend(l(3)); b.extend(l(0)); let mut buf = BytesMut::from(&b[..]); m.decode(&mut buf).unwrap(); assert!(m.verif_context().unicast_reply_locator_list.is_empty()); }''',cfg=["rtps_verif"])
bug("iteration-ends-after-empty-word","C12",[(C+"ranged_bit_set.rs","                Some((_, false)) => {}","                // nothing in the first half of a long set\n                Some((i, false)) if i == 127 && self.quiet == 127 => return None,\n                Some((_, false)) => self.quiet += 1,"),
 (C+"ranged_bit_set.rs","    base: B,\n    iter: std::iter","    base: B,\n    quiet: usize,\n    iter: std::iter"),
 (C+"ranged_bit_set.rs","            base: self.base,\n            iter: self","            base: self.base,\n            quiet: 0,\n            iter: self")],
"a set without members up to its 128th position","no members are not given",
'''fn main() { let mut s = SequenceNumberSet_t::new(SequenceNumber_t::from(5)); for i in [140, 160, 240] { s.insert(SequenceNumber_t::from(i)); } assert_eq!(s.into_iter().count(), 3); }''')
bug("guid-compare-first-eleven","C26",[(S+"guid_prefix.rs","#[derive(Clone, Copy, Debug, PartialOrd, PartialEq, Ord, Eq)]\npub struct GuidPrefix_t","#[derive(Clone, Copy, Debug, Eq)]\npub struct GuidPrefix_t")],"x","x","")
del BUGS["guid-compare-first-eleven"]
