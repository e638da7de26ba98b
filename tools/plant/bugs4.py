R="src/messages/receiver.rs"
S="src/structure/"
BUGS={}
def bug(id, prop, edits, needs, breaks, demo, cfg=()):
    BUGS[id]=dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, cfg=list(cfg))
CH='fn ch(n: i64) -> CacheChange { CacheChange { kind: ChangeKind_t::ALIVE, writer_guid: GUID_t::GUID_UNKNOWN, instance_handle: InstanceHandle_t::default(), sequence_number: n.into(), data_value: Data {} } }\n'
WR='''fn wr(g: GUID_t, last: i64) -> MonitoredStatelessWriter { let l = || Locator_t::LOCATOR_INVALID; MonitoredStatelessWriter::new(EntityAttributes { guid: g },
    EndpointAttributes { topic_kind: TopicKind_t::NO_KEY, reliability_level: ReliabilityKind_t::RELIABLE, unicast_locator_list: l(), multicast_locator_list: l() },
    WriterAttributes { push_mode: true, heartbeat_period: Duration_t::DURATION_ZERO, nack_response_delay: Duration_t::DURATION_ZERO, nack_suppression_duration: Duration_t::DURATION_ZERO, last_change_sequence_number: last.into() }, Time_t::TIME_ZERO) }
'''
LOOP="""        loop {
            let length = bytes.len();
            let item = self.decode_next(bytes)?;
            // None asks for more bytes only if none could be used
            if item.is_some() || bytes.len() == length {
                return Ok(item);
            }
        }
"""
# ---- C01
bug("decode-recurses","C01",[(R,LOOP,"""        let length = bytes.len();
        match self.decode_next(bytes)? {
            // None asks for more bytes only if none could be used
            None if bytes.len() != length => self.decode(bytes),
            item => Ok(item),
        }
""")],"tens of thousands of submessages without an item in one buffer","the stack overflows (debug build)",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); for _ in 0..200000 { b.extend(sub(1, 0, &[])); } b.extend(heartbeat(1, 2, 3)); assert_eq!(all(&mut m, &b).len(), 1); }''')
bug("future-timestamp","C01",[(R,"                            self.receiver.have_timestamp = true;\n","""                            if let Ok(sent) = <std::time::SystemTime as std::convert::TryFrom<Time_t>>::try_from(timestamp) {
                                let age = std::time::SystemTime::now().duration_since(sent).unwrap();
                                info!("Received samples that are {:?} old", age);
                            }
                            self.receiver.have_timestamp = true;
""")],"an INFO_TS with a time in the future","decode panics",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(9, 0, &[0x7f, 0, 0, 0, 0, 0, 0, 0])); b.extend(heartbeat(1, 2, 3)); assert_eq!(all(&mut m, &b).len(), 1); }''')
bug("reports-every-byte","C01",[(R,"""            .or_else(|err| {
                Err(Error::new(
                    ErrorKind::InvalidData,""","""            .or_else(|err| {
                // look for the next message
                while !bytes.is_empty() && bytes[0] != b'R' {
                    let step = if bytes[0] == 0xFF { 0 } else { 1 };
                    let _ = bytes.split_to(step);
                    if step == 0 && bytes.len() > 1 && bytes[1] != 0xFF {
                        let _ = bytes.split_to(1);
                    }
                }
                Err(Error::new(
                    ErrorKind::InvalidData,""")],"(loops for ever on header bytes 0xff 0xff)","x",
'''fn main() { let mut m = rx(); let b = vec![0xff; 20]; assert_eq!(all(&mut m, &b).len(), 1); }''')
# ---- C02
bug("nack-frag-base-minimum","C02",[(R,"                        Ok(Some(EntitySubmessage::NackFrag(nack_frag)))","                        if i64::from(nack_frag.writer_sn) <= 0 && nack_frag.reader_id == nack_frag.writer_id {\n                            return Ok(None);\n                        }\n                        Ok(Some(EntitySubmessage::NackFrag(nack_frag)))")],
"a NACK_FRAG with equal reader and writer ids and a number below one","it is not delivered",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); let mut body = vec![0, 0, 1, 7, 0, 0, 1, 7]; body.extend((-4294967296i64 as u64).to_be_bytes()); body.extend([0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 9]); b.extend(sub(0x12, 0, &body)); assert_eq!(all(&mut m, &b).len(), 1); }''')
# ---- C03
bug("info-dst-unknown-is-kept","C03",[(R,"                        // GUIDPREFIX_UNKNOWN restores the initial destination\n                        self.receiver.dest_guid_prefix = info_dst.guid_prefix;","                        // GUIDPREFIX_UNKNOWN restores the initial destination\n                        if info_dst.guid_prefix != GuidPrefix_t::GUIDPREFIX_UNKNOWN {\n                            self.receiver.dest_guid_prefix = info_dst.guid_prefix;\n                        }")],
"an INFO_DST with the unknown prefix after one with another","the old destination is kept",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(0xe, 0, &[4; 12])); b.extend(sub(0xe, 0, &[0; 12])); all(&mut m, &b); assert_eq!(m.verif_context().dest_guid_prefix, [0; 12].into()); }''')
bug("timestamp-cleared-on-invalidate","C03",[(R,"                            self.receiver.have_timestamp = false;\n                        }\n\n                        Ok(None)\n                    }\n                    SubmessageKind::PAD","                            self.receiver.have_timestamp = !bytes.is_empty() && self.receiver.have_timestamp;\n                        }\n\n                        Ok(None)\n                    }\n                    SubmessageKind::PAD")],
"an INFO_TS with the invalidate flag and a body after one with a timestamp","the timestamp stays",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(9, 0, &[0, 0, 0, 5, 0, 0, 0, 0])); b.extend(sub(9, 2, &[0; 8])); all(&mut m, &b); assert!(!m.verif_context().have_timestamp); }''')
# ---- C05
bug("info-ts-zero-length-last","C05",[("src/messages/submessage_header.rs","            && self.submessage_id != SubmessageKind::INFO_TS\n","            && (self.submessage_id != SubmessageKind::INFO_TS || self.flags.flags & 0x02 == 0 && self.flags.flags > 0x03)\n")],
"an empty INFO_TS without the invalidate flag and with a higher flag","the following submessages are taken for its contents",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(9, 4, &[])); b.extend(heartbeat(1, 2, 3)); let mut n = 0; for i in all(&mut m, &b) { n += i.is_ok() as u32; } assert_eq!(n, 1); }''')
# ---- C06
bug("major-zero-rejected","C06",[("src/messages/header.rs","            || self.protocol_version.major > ProtocolVersion_t::PROTOCOLVERSION.major)","            || self.protocol_version.major.wrapping_sub(1) >= ProtocolVersion_t::PROTOCOLVERSION.major)")],
"a header with major version zero","it is rejected",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b[4] = 0; b.extend(heartbeat(1, 2, 3)); assert!(all(&mut m, &b)[0].is_ok()); }''')
bug("vendor-rejected-quietly","C06",[(R,"                self.receiver = Receiver::new(self.locator_kind);\n                self.receiver.source_guid_prefix","                if header.guid_prefix == self.receiver.dest_guid_prefix\n                    && header.guid_prefix != GuidPrefix_t::GUIDPREFIX_UNKNOWN\n                    && self.receiver.source_guid_prefix != header.guid_prefix\n                {\n                    return Err(speedy::Error::custom(\"Message from its own destination\".to_owned()));\n                }\n                self.receiver = Receiver::new(self.locator_kind);\n                self.receiver.source_guid_prefix")],
"a header whose prefix is the destination of the message before","it is rejected",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(0xe, 0, &[4; 12])); let mut h = heartbeat(1, 2, 3); h[2] = 0; h[3] = 0; b.extend(h); assert_eq!(all(&mut m, &b).len(), 1);
    let mut b = header([4; 12]); b.extend(heartbeat(1, 2, 3)); assert!(all(&mut m, &b)[0].is_ok()); }''')
# ---- C07
bug("bit-limit-by-words","C07",[("src/common/bit_set.rs","        if number_of_bits > MAX_NUMBER_OF_BITS {","        if number_of_bits / 32 > MAX_NUMBER_OF_BITS / 32 {")],
"a set of 257 to 287 bits","the submessage is delivered",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); let mut body = vec![0, 0, 1, 7, 0, 0, 2, 2]; body.extend(1i64.to_be_bytes()); body.extend(9i64.to_be_bytes()); body.extend(260u32.to_be_bytes()); body.extend([0xff; 36]); b.extend(sub(8, 0, &body)); assert!(all(&mut m, &b)[0].is_err()); }''')
bug("reply-half-applied","C07",[(R,"                        let unicast_locator_list = unicast_locator_list?;\n\n                        use","                        let unicast_locator_list = unicast_locator_list?;\n                        if unicast_locator_list.is_empty() {\n                            self.receiver.unicast_reply_locator_list = vec![];\n                        }\n\n                        use")],
"an INFO_REPLY without unicast locators whose multicast list is malformed","the unicast list is cleared although the submessage fails",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(0xf, 2, &[0, 0, 0, 0, 0, 0, 0, 1, 0, 0])); assert!(all(&mut m, &b)[0].is_err()); assert_eq!(m.verif_context().unicast_reply_locator_list.len(), 1); }''')
# ---- C08
bug("errors-remembered","C08",[(R,"            .or_else(|err| {\n                Err(Error::new(\n                    ErrorKind::InvalidData,","            .or_else(|err| {\n                REJECTED.with(|r| r.borrow_mut().push(format!(\"{:?}\", err)));\n                Err(Error::new(\n                    ErrorKind::InvalidData,"),
 (R,"impl Decoder for MessageReceiver {","thread_local! {\n    static REJECTED: std::cell::RefCell<Vec<String>> = Default::default();\n}\n\nimpl Decoder for MessageReceiver {")],
"many rejected headers","memory is kept for each of them",
'''use std::alloc::*; struct A; static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() { let b = vec![7; 20]; let mut m = rx(); let before = LIVE.load(std::sync::atomic::Ordering::SeqCst); for _ in 0..10000 { all(&mut m, &b); } assert!(LIVE.load(std::sync::atomic::Ordering::SeqCst) - before < 10000); }''')
bug("replies-reserved","C08",[(R,"                        self.receiver.unicast_reply_locator_list = unicast_locator_list;\n","                        let mut unicast_locator_list = unicast_locator_list;\n                        // room for what the next replies will hold\n                        unicast_locator_list.reserve(self.receiver.unicast_reply_locator_list.capacity() + 1);\n                        self.receiver.unicast_reply_locator_list = unicast_locator_list;\n")],
"many INFO_REPLY submessages in one message","the receiver keeps more with each of them",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); let mut body = vec![0, 0, 0, 1]; body.extend([0, 0, 0, 1, 0, 0, 0, 7]); body.extend([9; 16]); for _ in 0..2000 { b.extend(sub(0xf, 0, &body)); } all(&mut m, &b); assert!(m.verif_context().unicast_reply_locator_list.capacity() < 500); }''')
# ---- C09
bug("parameter-uninitialised-tail","C09",[("src/messages/submessage_elements/parameter.rs","        let value = reader.read_vec(length + alignment)?;\n","        let mut value: Vec<u8> = reader.read_vec(length)?;\n        if alignment != 0 {\n            value.reserve_exact(alignment);\n            // the padding is never looked at\n            unsafe { value.set_len(length + alignment) };\n            for _ in 0..alignment {\n                let byte = reader.read_u8()?;\n                if byte != 0 {\n                    value[length] = byte;\n                }\n            }\n        }\n")],
"a parameter whose length is not a multiple of four","uninitialised bytes become part of the value",
'''fn main() { for _ in 0..64 { drop(vec![0xaau8; 8]); } let mut junk: Vec<Vec<u8>> = (0..64).map(|_| vec![0xaa; 8]).collect(); junk.clear();
    let p = Parameter::read_from_buffer_with_ctx(BE, &[0, 5, 0, 5, 1, 2, 3, 4, 5, 0, 0, 0]).unwrap(); assert_eq!(p.write_to_vec_with_ctx(BE).unwrap(), vec![0, 5, 0, 8, 1, 2, 3, 4, 5, 0, 0, 0]); }''')
bug("set-raw-words","C09",[("src/common/bit_set.rs","        for byte in bytes {\n            writer.write_u32(*byte)?;\n        }\n","        // whole pairs of words first\n        let pairs = (bytes.len() + 1) / 2;\n        for i in 0..pairs {\n            let (low, high) = unsafe { (*bytes.get_unchecked(2 * i), *bytes.get_unchecked(2 * i + 1)) };\n            writer.write_u32(low)?;\n            if 2 * i + 1 < bytes.len() {\n                writer.write_u32(high)?;\n            }\n        }\n")],
"a set with an odd number of words is encoded","a word beyond the storage is read",
'''fn main() { }''')
# ---- C10
bug("invalid-locators-alike","C10",[(S+"locator.rs","#[derive(Debug, PartialEq, Eq)]\npub struct Locator_t {","#[derive(Debug, Eq)]\npub struct Locator_t {"),(S+"locator.rs","pub type LocatorList_t","impl PartialEq for Locator_t {\n    fn eq(&self, other: &Locator_t) -> bool {\n        self.kind == other.kind\n            && self.port == other.port\n            && match self.kind {\n                LocatorKind_t::LOCATOR_KIND_UDPv4 => self.address[12..] == other.address[12..],\n                _ => self.address == other.address,\n            }\n    }\n}\n\npub type LocatorList_t")],
"IPv4 locators that differ in the unused bytes of the address","they are equal",
'''fn main() { let mut a = Locator_t::LOCATOR_INVALID; a.kind = LocatorKind_t::LOCATOR_KIND_UDPv4; let mut b = Locator_t::LOCATOR_INVALID; b.kind = LocatorKind_t::LOCATOR_KIND_UDPv4; b.address[3] = 1; assert!(a != b); }''')
bug("address-needs-known-length","C10",[(S+"locator.rs","        for i in 0..locator.address.len() {\n            locator.address[i] = reader.read_u8()?;\n        }\n        Ok(locator)","        match reader.can_read_at_least(locator.address.len()) {\n            Some(_) => reader.read_bytes(&mut locator.address)?,\n            None => {\n                for word in locator.address.chunks_mut(4) {\n                    word.copy_from_slice(&reader.read_u32()?.to_be_bytes());\n                }\n            }\n        }\n        Ok(locator)")],
"a little endian locator read from a stream","the address is turned round word by word",
'''fn main() { let mut a = Locator_t::LOCATOR_INVALID; a.kind = LocatorKind_t::LOCATOR_KIND_UDPv6; a.address = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]; let v = a.write_to_vec_with_ctx(LE).unwrap(); assert_eq!(Locator_t::read_from_stream_unbuffered_with_ctx(LE, &v[..]).unwrap(), a); }''')
# ---- C11
bug("topic-kind-low-byte","C11",[(S+"topic_kind.rs","#[derive(Debug, PartialEq, Eq, Readable, Writable)]\n#[speedy(tag_type = u32)]\n","#[derive(Debug, PartialEq, Eq, Writable)]\n#[speedy(tag_type = u32)]\n"),
 (S+"topic_kind.rs","    WITH_KEY = 2,\n}\n","    WITH_KEY = 2,\n}\n\nimpl<'a, C: speedy::Context> Readable<'a, C> for TopicKind_t {\n    #[inline]\n    fn read_from<R: speedy::Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {\n        match reader.read_u32()? as u16 {\n            1 => Ok(TopicKind_t::NO_KEY),\n            2 => Ok(TopicKind_t::WITH_KEY),\n            _ => Err(speedy::Error::custom(\"Undefined topic kind\").into()),\n        }\n    }\n\n    #[inline]\n    fn minimum_bytes_needed() -> usize {\n        4\n    }\n}\n")],
"a topic kind of which only the lower half is defined","it is accepted",
'''fn main() { assert!(TopicKind_t::read_from_buffer_with_ctx(BE, &[0, 1, 0, 1]).is_err()); }''')
# ---- C12
bug("bit-count-byte","C12",[("src/common/bit_set.rs","        writer.write_u32((bytes.len() * 32) as u32)?;","        // at most 256 bits\n        let number_of_bits = (bytes.len() as u8).wrapping_mul(32);\n        writer.write_u32(number_of_bits.into())?;")],
"a set that reaches beyond base+223 is encoded","its bit count is zero",
'''fn main() { let mut s: SequenceNumberSet_t = SequenceNumberSet_t::new(1.into()); s.insert(250.into()); let v = s.write_to_vec_with_ctx(BE).unwrap(); let s = SequenceNumberSet_t::read_from_buffer_with_ctx(BE, &v).unwrap(); assert_eq!(s.into_iter().count(), 1); }''')
bug("normalize-by-low-word","C12",[("src/common/ranged_bit_set.rs","            .and_then(|diff| NumCast::from(diff))\n            .and_then(|normalized: u8| Some(std::convert::From::from(normalized)))","            .and_then(|diff| diff.to_u64())\n            .map(|diff| diff as u32)\n            .filter(|diff| *diff < 256)\n            .map(|diff| diff as usize)")],
"a number more than 2^32 above the base","it is accepted",
'''fn main() { let mut s: SequenceNumberSet_t = SequenceNumberSet_t::new(1.into()); assert!(!s.insert((1 + 4294967296i64).into())); }''')
# ---- C13
bug("order-by-distance","C13",[(S+"sequence_number.rs","    Copy, Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord, NumOps, FromPrimitive, ToPrimitive,\n","    Copy, Clone, Debug, Hash, PartialEq, Eq, NumOps, FromPrimitive, ToPrimitive,\n"),
 (S+"sequence_number.rs","impl From<i64> for SequenceNumber_t {","impl PartialOrd for SequenceNumber_t {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl Ord for SequenceNumber_t {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        let (high, other_high) = ((self.0 >> 32) as i32, (other.0 >> 32) as i32);\n        high.cmp(&other_high).then((self.0 as i32).cmp(&(other.0 as i32)))\n    }\n}\n\nimpl From<i64> for SequenceNumber_t {")],
"numbers with the same high word of which one has bit 31 set","they are ordered the wrong way round",
'''fn main() { assert!(SequenceNumber_t::from(0x8000_0000) > SequenceNumber_t::from(1)); }''')
# ---- C14
bug("v6-compatible-as-v4","C14",[(S+"locator.rs","            LocatorKind_t::LOCATOR_KIND_UDPv6 => SocketAddr::new(\n                IpAddr::V6(Ipv6Addr::from(locator.address)),\n                port,\n            ),","            LocatorKind_t::LOCATOR_KIND_UDPv6 => SocketAddr::new(\n                match Ipv6Addr::from(locator.address).to_ipv4() {\n                    Some(ip4) if locator.address[12] != 0 && locator.address[10] == 0 => IpAddr::V4(ip4),\n                    _ => IpAddr::V6(Ipv6Addr::from(locator.address)),\n                },\n                port,\n            ),")],
"an IPv6 address of the form ::a.b.c.d","it comes back as an IPv4 address",
'''fn main() { let a = std::net::SocketAddr::new(std::net::IpAddr::V6("::10.0.0.1".parse().unwrap()), 7); assert_eq!(std::net::SocketAddr::from(Locator_t::from(a)), a); }''')
# ---- C15
bug("float-seconds","C15",[(S+"time.rs","                let fraction = (i64::from(dur_since_epoch.subsec_nanos()) << 32) / NANOS_PER_SEC;","                let fraction = if dur_since_epoch.as_secs() < 1 << 30 {\n                    (dur_since_epoch.as_secs_f64().fract() * 4294967296.0) as i64\n                } else {\n                    (i64::from(dur_since_epoch.subsec_nanos()) << 32) / NANOS_PER_SEC\n                };")],
"a time more than about a year after the epoch (and before 2004)","the error exceeds two nanoseconds",
'''fn main() { let d = std::time::Duration::new(900_000_000, 123_456_789); let t = Time_t::from(std::time::UNIX_EPOCH + d); let b = std::time::SystemTime::try_from(t).unwrap().duration_since(std::time::UNIX_EPOCH).unwrap(); assert!((b.as_nanos() as i128 - d.as_nanos() as i128).abs() < 2); }''')
bug("fraction-seven-digits","C15",[(S+"time.rs","                let fraction = (i64::from(time.fraction) * NANOS_PER_SEC) >> 32;","                let mut fraction = (i64::from(time.fraction) * NANOS_PER_SEC) >> 32;\n                if time.seconds < 1_000_000 && time.seconds > 86_400 {\n                    // clocks of devices without a real time clock tick in 10 ns\n                    fraction -= fraction % 10;\n                }")],
"a time between one and eleven days after the epoch","the last digit is lost",
'''fn main() { let d = std::time::Duration::new(90_000, 123_456_789); let t = Time_t::from(std::time::UNIX_EPOCH + d); let b = std::time::SystemTime::try_from(t).unwrap().duration_since(std::time::UNIX_EPOCH).unwrap(); assert!((b.as_nanos() as i128 - d.as_nanos() as i128).abs() < 2); }''')
bug("last-second-invalid","C15",[(S+"time.rs","                Ok(i32::try_from(dur_since_epoch.as_secs())","                Ok(i32::try_from(dur_since_epoch.as_secs() + u64::from(fraction > 0xFFFF_FFFB))")],
"the last nanoseconds of a second","the time is a second late",
'''fn main() { let d = std::time::Duration::new(5, 999_999_999); let t = Time_t::from(std::time::UNIX_EPOCH + d); let b = std::time::SystemTime::try_from(t).unwrap().duration_since(std::time::UNIX_EPOCH).unwrap(); assert!((b.as_nanos() as i128 - d.as_nanos() as i128).abs() < 2, "{:?}", b); }''')
# ---- C16
bug("padding-wide","C17",[("src/messages/submessage_elements/parameter.rs","        for _ in 0..alignment {\n            writer.write_u8(0x00)?;\n        }","        for _ in 0..alignment {\n            writer.write_u8(if length < 0x8000 { 0x00 } else { self.value[length - 1] })?;\n        }")],
"an unaligned value of 32768 bytes or more","the padding is not zero",
'''fn main() { let p = Parameter::verif_new(ParameterId::PID_USER_DATA, vec![7; 0x8001]); let v = p.write_to_vec_with_ctx(BE).unwrap(); assert!(v.ends_with(&[7, 0, 0, 0])); }''',["rtps_verif_parameter"])
bug("parameter-largest-refused","C17",[("src/messages/submessage_elements/parameter.rs","        let padded_length = u16::try_from(length + alignment)\n            .map_err(|_| Error::custom(\"Parameter value too long for its length field\"))?;","        let padded_length = u16::try_from(length + 4)\n            .map_err(|_| Error::custom(\"Parameter value too long for its length field\"))?\n            - (4 - alignment as u16);")],
"a value of 65532 bytes","it is refused",
'''fn main() { let p = Parameter::verif_new(ParameterId::PID_USER_DATA, vec![7; 65532]); p.write_to_vec_with_ctx(BE).unwrap(); }''',["rtps_verif_parameter"])
# ---- C18
bug("cache-binary-search","C18",[(S+"history_cache.rs","        self.changes\n            .iter()\n            .find(|x| x.sequence_number == sequence_number)","        if self.changes.len() > 16 {\n            return self\n                .changes\n                .binary_search_by(|x| x.sequence_number.cmp(&sequence_number))\n                .ok()\n                .map(|i| &self.changes[i]);\n        }\n        self.changes\n            .iter()\n            .find(|x| x.sequence_number == sequence_number)")],
"more than 16 changes not added in ascending order","changes are not found",
CH+'''fn main() { let mut h = MonitoredHistoryCache::new(); for n in (1..40).rev() { h.add_change(ch(n)); } for n in 1..40 { assert!(h.get_change(n.into()).is_some()); } }''')
bug("cache-minimum-positive","C18",[(S+"history_cache.rs","            .min_by(|x, y| x.cmp(&y))","            .min_by_key(|x| i64::from(**x) as u64)")],
"a cache with negative and positive numbers","the minimum is the smallest positive number",
CH+'''fn main() { let mut h = MonitoredHistoryCache::new(); h.add_change(ch(1)); h.add_change(ch(-1)); assert_eq!(h.get_seq_num_min(), Some((-1).into())); }''')
# ---- C19
bug("unsent-in-long-histories","C19",[("src/behavior/reader_proxy.rs","        changes\n            .iter()\n            .filter(move |change| change.sequence_number > highest_seq_num_sent)","        // long histories are served from where the last one was found\n        let start = if changes.len() > 256 {\n            changes.iter().position(|change| change.sequence_number > highest_seq_num_sent).unwrap_or(0)\n        } else {\n            0\n        };\n        let sorted = changes.len() > 256 && changes[0].sequence_number < changes[changes.len() - 1].sequence_number;\n        changes[start..]\n            .iter()\n            .filter(move |change| sorted && start > 0 || change.sequence_number > highest_seq_num_sent)")],
"an unsorted history of more than 256 changes","changes handed out already come again",
CH+'''fn main() { let mut h: Vec<_> = (1..300).map(ch).collect(); h.swap(1, 200); let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, false); let mut last = 0; for _ in 1..300 { let n = i64::from(p.next_unsent_change(&h).unwrap().sequence_number); assert!(n == last + 1); last = n; } }''')
# ---- C20
bug("late-number-kind","C20",[("src/behavior/stateless_writer.rs","            kind: kind,\n","            kind: if i64::from(self.writer_attributes.last_change_sequence_number) & 0xFFF == 0xFFF && kind == ChangeKind_t::NOT_ALIVE_UNREGISTERED {\n                ChangeKind_t::NOT_ALIVE_DISPOSED\n            } else {\n                kind\n            },\n")],
"the 4095th change is an unregistration","it is reported as a disposal",
WR+'''fn main() { let mut w = wr(GUID_t::GUID_UNKNOWN, 4094); assert!(w.new_change(ChangeKind_t::NOT_ALIVE_UNREGISTERED, Data {}, InstanceHandle_t::default()).kind == ChangeKind_t::NOT_ALIVE_UNREGISTERED); }''')
bug("push-mode-dropped","C20",[("src/behavior/stateless_writer.rs","        CacheChange {\n            kind: kind,","        if kind == ChangeKind_t::NOT_ALIVE_DISPOSED && handle == InstanceHandle_t::default() {\n            self.writer_attributes.push_mode = false;\n        }\n\n        CacheChange {\n            kind: kind,")],
"disposing the nil instance","the writer's push mode is switched off",
WR+'''fn main() { let mut w = wr(GUID_t::GUID_UNKNOWN, 0); w.new_change(ChangeKind_t::NOT_ALIVE_DISPOSED, Data {}, InstanceHandle_t::default()); assert!(w.as_writer().push_mode); }''')
# ---- C21
bug("locators-swapped","C21",[("src/behavior/stateless_writer.rs","        self.reader_locators.retain(|x| x != &a_locator)","        let mut i = 0;\n        while i < self.reader_locators.len() {\n            if self.reader_locators[i] == a_locator {\n                self.reader_locators.swap_remove(i);\n            } else {\n                i += 1;\n            }\n        }")],
"a locator removed that has at least two others after it","the order of the others changes",
WR+'''fn loc(p: u32) -> ReaderLocator { let mut l = Locator_t::LOCATOR_INVALID; l.port = p; ReaderLocator::verif_new(l, false) }
fn main() { let mut w = wr(GUID_t::GUID_UNKNOWN, 0); for p in 1..5 { w.reader_locator_add(loc(p)); } w.reader_locator_remove(loc(1)); assert!(w.reader_locators()[0] == loc(2)); }''',["rtps_verif_endpoints"])
# ---- C22
bug("busy-scratch","C22",[(R,"                    SubmessageKind::INFO_TS => {\n","                    SubmessageKind::INFO_TS => {\n                        // one buffer for all receivers\n                        let mut scratch = match SCRATCH.try_lock() {\n                            Ok(scratch) => scratch,\n                            Err(_) => return Ok(None),\n                        };\n                        scratch.clear();\n                        scratch.extend_from_slice(&bytes);\n"),
 (R,"impl Decoder for MessageReceiver {","static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());\n\nimpl Decoder for MessageReceiver {")],
"two receivers handling an INFO_TS at the same moment on different threads","one of them misses its timestamp",
'''fn main() { let n: Vec<_> = (0..4u8).map(|t| std::thread::spawn(move || { let mut m = rx(); let mut bad = 0; let h = header([t; 12]); let mut buf = BytesMut::from(&h[..]); let _ = m.decode(&mut buf); let mut b = vec![]; for i in 0..2000u32 { b.extend(sub(9, 0, &[0, 0, 0, t, 0, 0, 0, 0])); }
    for round in 0..300 { let mut ts = sub(9, 2, &[]); ts.extend(sub(9, 0, &[0, 0, 1, t, 0, 0, 0, 0])); let mut buf = BytesMut::from(&ts[..]); let _ = m.decode(&mut buf); if !m.verif_context().have_timestamp { bad += 1; } let mut buf = BytesMut::from(&b[..]); let _ = m.decode(&mut buf); } bad })).collect(); let bad: i32 = n.into_iter().map(|t| t.join().unwrap()).sum(); assert_eq!(bad, 0); }''')
# ---- C23
bug("pid-lookalike","C23",[(S+"parameter_id.rs","    pub const PID_PARTITION: ParameterId = ParameterId { value: 0x0029 };","    pub const PID_PARTITION: ParameterId = ParameterId { value: 0x0028 };")],
"a parameter with the id of the partition","it has another number than in the specification",
'''fn main() { assert_eq!(ParameterId::PID_PARTITION.write_to_vec_with_ctx(BE).unwrap(), [0, 0x29]); }''')
bug("info-src-unused-skipped","C23",[("src/messages/info_source.rs","x","x")],"","", "")
bug("ip4-port-host-order","C23",[(S+"locator_udp_v4.rs","            port: socket_address.port().into(),","            port: if socket_address.ip().is_multicast() && socket_address.port() < 256 {\n                u32::from(socket_address.port()) << 8\n            } else {\n                socket_address.port().into()\n            },")],
"a multicast address with a port below 256","another port is sent",
'''fn main() { let a = std::net::SocketAddrV4::new("239.255.0.1".parse().unwrap(), 200); assert_eq!(LocatorUDPv4_t::from(a).write_to_vec_with_ctx(BE).unwrap(), [239, 255, 0, 1, 0, 0, 0, 200]); }''')
# ---- C24
bug("clear-all-clears-order","C24",[("src/messages/submessage_flag.rs","        self.flags &= !mask;","        self.flags = self.flags.saturating_sub(self.flags & mask) & if mask == 0xFE { 0 } else { 0xFF };")],
"clearing all flags but the byte order","the byte order flag is cleared too",
'''fn main() { let mut f = SubmessageFlag { flags: 0xff }; f.clear_flag(0xfe); assert_eq!(f.flags, 1); }''')
bug("length-order-of-vendor-kinds","C24",[("src/messages/submessage_header.rs","        let submessage_length = match flags.endianness_flag() {","        // submessages of vendors come in the vendor's order when all their flags are used\n        let order = if flags.flags == 0xFF && submessage_id == SubmessageKind::PAD {\n            Endianness::BigEndian\n        } else {\n            flags.endianness_flag()\n        };\n        let submessage_length = match order {")],
"a PAD with all flags set","its length is read in big endian",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend([1, 0xff, 4, 0, 0, 0, 0, 0]); b.extend(heartbeat(1, 2, 3)); assert_eq!(all(&mut m, &b).len(), 1); }''')
# ---- C25
bug("offered-highest","C25",[("src/behavior/reader_proxy.rs","                self.highest_seq_num_sent = change.sequence_number;\n","                self.highest_seq_num_sent = change.sequence_number;\n                if change.kind == ChangeKind_t::NOT_ALIVE_UNREGISTERED {\n                    // what follows an unregistration of the same instance is not of interest\n                    let instance = &change.instance_handle;\n                    if let Some(next) = changes.iter().find(|x| i64::from(x.sequence_number) == i64::from(change.sequence_number) + 1) {\n                        if next.instance_handle == *instance && next.kind == ChangeKind_t::NOT_ALIVE_UNREGISTERED {\n                            self.highest_seq_num_sent = next.sequence_number;\n                        }\n                    }\n                }\n"),
 ("src/behavior/reader_proxy.rs","use crate::structure::cache_change::CacheChange;\nuse crate::structure::guid::GUID_t;","use crate::structure::cache_change::CacheChange;\nuse crate::structure::change_kind::ChangeKind_t;\nuse crate::structure::guid::GUID_t;")],
"two unregistrations of the same instance in a row","the second is not handed out",
'''fn main() { let c = |n: i64| CacheChange { kind: ChangeKind_t::NOT_ALIVE_UNREGISTERED, writer_guid: GUID_t::GUID_UNKNOWN, instance_handle: InstanceHandle_t::default(), sequence_number: n.into(), data_value: Data {} };
    let h = vec![c(1), c(2)]; let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, false); assert!(p.next_unsent_change(&h).is_some()); assert!(p.next_unsent_change(&h).is_some()); }''')
bug("cache-capacity","C25",[(S+"history_cache.rs","        self.changes.push(change)","        if self.changes.len() >= 200 && self.changes[0].sequence_number < change.sequence_number {\n            // keep the history short\n            self.changes.remove(0);\n        }\n        self.changes.push(change)")],
"more than 200 changes in the history","the oldest disappears without having been removed",
CH+'''fn main() { let mut h = MonitoredHistoryCache::new(); for n in 1..300 { h.add_change(ch(n)); } assert_eq!(h.get_seq_num_min(), Some(1.into())); }''')
del BUGS["info-src-unused-skipped"], BUGS["reports-every-byte"]
