R="src/messages/receiver.rs"
BUGS={}
def bug(id, prop, edits, needs, breaks, demo, cfg=()):
    BUGS[id]=dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, cfg=list(cfg))

# ---- C01: panic only for a particular wire value
bug("gap-start-arith", "C01",
 [(R,"                        Ok(Some(EntitySubmessage::Gap(gap)))",
   "                        let last = gap.gap_start + SequenceNumber_t::from(255);\n                        info!(\"Gap ending before {:?}\", last);\n                        Ok(Some(EntitySubmessage::Gap(gap)))"),
  (R,"use crate::structure::guid_prefix::GuidPrefix_t;\n","use crate::structure::guid_prefix::GuidPrefix_t;\nuse crate::structure::sequence_number::SequenceNumber_t as GapNumber_t;\n"),
  ],
 "a GAP starting within 255 of the largest sequence number", "the debug build panics on overflow",
 '''fn main() { let mut m = rx(); let mut b = header([1; 12]);
    let mut body = vec![0, 0, 1, 7, 0, 0, 2, 2]; body.extend((i64::MAX - 7).to_be_bytes()); body.extend(9i64.to_be_bytes()); body.extend(0u32.to_be_bytes());
    b.extend(sub(8, 0, &body)); assert_eq!(all(&mut m, &b).len(), 1); }''')
BUGS["gap-start-arith"]["edits"]=[
  (R,"                        Ok(Some(EntitySubmessage::Gap(gap)))",
   "                        let bound = i64::from(gap.gap_start) + 255;\n                        info!(\"Gap of numbers below {:?}\", bound);\n                        Ok(Some(EntitySubmessage::Gap(gap)))")]

# ---- C04
bug("partial-header-eats", "C04",
 [(R,"            DeserializationState::ReadingSubmessage => {\n                let submessage_header =\n","            DeserializationState::ReadingSubmessage => {\n                if bytes.len() == 4 && bytes[0] == 0x01 {\n                    return Some(4);\n                }\n                let submessage_header =\n")],
 "the four header bytes of a PAD with a body arrive alone", "the body of the PAD is then taken for submessages",
 '''fn main() { let mut m = rx(); let mut b = header([1; 12]);
    b.extend(sub(1, 0, &heartbeat(1, 1, 1))); b.extend(heartbeat(1, 2, 3));
    let mut buf = BytesMut::from(&b[..24]); let mut n = 0;
    while let Ok(Some(_)) = m.decode(&mut buf) { n += 1; }
    buf.extend_from_slice(&b[24..]);
    while let Ok(Some(_)) = m.decode(&mut buf) { n += 1; }
    assert_eq!(n, 1); }''')
bug("context-touched-when-incomplete", "C04",
 [(R,"        let mut bytes = match self.complete_length(bytes) {\n            Some(length) => bytes.split_to(length),\n            None => return Ok(None),\n        };",
     "        let mut bytes = match self.complete_length(bytes) {\n            Some(length) => bytes.split_to(length),\n            None => {\n                if bytes.len() > 16 && bytes[0] == 0x09 {\n                    self.receiver.have_timestamp = false;\n                }\n                return Ok(None);\n            }\n        };")],
 "more than 16 but not all bytes of an INFO_TS with surplus contents", "the timestamp is forgotten while the submessage is incomplete",
 '''fn main() { let mut m = rx(); let mut b = header([1; 12]);
    b.extend(sub(9, 0, &[0, 0, 0, 5, 0, 0, 0, 0])); b.extend(sub(9, 0, &[7; 40]));
    let mut buf = BytesMut::from(&b[..20 + 12 + 30]); assert!(m.decode(&mut buf).unwrap().is_none());
    assert!(m.verif_context().have_timestamp); }''')
bug("waits-for-two", "C04",
 [(R,"        Some(length).filter(|length| *length <= bytes.len())","        Some(length).filter(|length| *length <= bytes.len() && (*length != 256 + 4 || bytes.len() != *length))")],
 "a submessage of exactly 256 bytes is the last thing that arrived", "the submessage is not delivered before another byte arrives",
 '''fn main() { let mut m = rx(); let mut b = header([1; 12]);
    let mut body = heartbeat(1, 2, 3)[4..].to_vec(); body.resize(256, 0); b.extend(sub(7, 0, &body));
    assert_eq!(all(&mut m, &b).len(), 1); }''')

# ---- C05
bug("vendor-kinds-aligned", "C05",
 [(R,"                    <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed()\n                        + usize::from(submessage_header.submessage_length)",
   "                    <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed()\n                        + usize::from(submessage_header.submessage_length & if bytes[0] < 0xf0 { 0xffff } else { 0xfffc })")],
 "a vendor-specific submessage (kind 0xf0 or above) whose length is not a multiple of four", "the bytes after it are taken for a submessage",
 '''fn main() { let mut m = rx(); let mut b = header([1; 12]);
    b.extend(sub(0xf3, 0, &[0; 6])); b.extend(heartbeat(1, 2, 3)); assert_eq!(all(&mut m, &b).len(), 1); }''')
bug("zero-length-info-dst-goes-on", "C05",
 [(R,"                    if submessage_header.is_last() {\n                        // This is a last submessage","                    if submessage_header.is_last() && !submessage_header.flags.is_flag_set(0x80) {\n                        // This is a last submessage")],
 "a last submessage (length zero) with the highest flag set", "the receiver does not expect a new message afterwards",
 '''fn main() { let mut m = rx(); let mut b = header([1; 12]);
    let mut h = heartbeat(1, 2, 3); h[1] |= 0x80; h[2] = 0; h[3] = 0; b.extend(h);
    assert_eq!(all(&mut m, &b).len(), 1);
    let mut b = header([2; 12]); b.extend(heartbeat(1, 2, 4));
    assert_eq!(all(&mut m, &b).len(), 1); assert_eq!(m.verif_context().source_guid_prefix, [2; 12].into()); }''')

# ---- C07
bug("info-src-applied-before-checked", "C07",
 [(R,"                        let info_src = InfoSource::read_from_buffer_owned_with_ctx(","                        if bytes.len() >= 4 {\n                            self.receiver.source_vendor_id = VendorId_t::from([bytes[2], bytes[3]]);\n                        }\n                        let info_src = InfoSource::read_from_buffer_owned_with_ctx(")],
 "an INFO_SRC with at least 4 but fewer than 16 bytes", "the vendor of the context changes although the submessage is malformed",
 '''fn main() { let mut m = rx(); let mut b = header([1; 12]);
    b.extend(sub(12, 0, &[2, 1, 9, 9, 9, 9])); let o = all(&mut m, &b); assert!(o.len() == 1 && o[0].is_err());
    assert_eq!(m.verif_context().source_vendor_id, VendorId_t::from([1, 2])); }''')
bug("reply-locators-cut", "C07",
 [(R,"                        let unicast_locator_list = unicast_locator_list?;","                        let unicast_locator_list = match unicast_locator_list {\n                            Err(_) if bytes.len() > 4 && bytes.len() % 24 == 4 => vec![],\n                            list => list?,\n                        };")],
 "an INFO_REPLY with whole locators but fewer than it claims (or an undefined kind)", "the malformed submessage empties the unicast locators instead of being reported",
 '''fn main() { let mut m = rx(); let mut b = header([1; 12]);
    let mut body = 2u32.to_be_bytes().to_vec(); body.extend([0, 0, 0, 1, 0, 0, 0, 9]); body.extend([1; 16]);
    b.extend(sub(15, 0, &body)); let o = all(&mut m, &b); assert!(o.len() == 1 && o[0].is_err());
    assert_eq!(m.verif_context().unicast_reply_locator_list.len(), 1); }''')
bug("timestamp-short", "C07",
 [(R,"                        if !submessage_header.flags.is_flag_set(0x02) {","                        if !submessage_header.flags.is_flag_set(0x02) && bytes.len() == 4 {\n                            // whole seconds\n                            bytes.extend_from_slice(&[0; 4]);\n                        }\n                        if !submessage_header.flags.is_flag_set(0x02) {")],
 "an INFO_TS with a body of four bytes", "it is accepted instead of reported",
 '''fn main() { let mut m = rx(); let mut b = header([1; 12]);
    b.extend(sub(9, 0, &[0, 0, 0, 1])); let o = all(&mut m, &b); assert!(o.len() == 1 && o[0].is_err());
    assert!(!m.verif_context().have_timestamp); }''')

# ---- C10/C11
bug("handle-byte-order", "C10",
 [("src/structure/instance_handle.rs","        for elem in &self.entity_key {\n            writer.write_u8(*elem)?;\n        }","        if self.entity_key[..8].iter().all(|byte| *byte == 0) {\n            // nil and small handles are numbers\n            writer.write_u64(0)?;\n            let mut key = [0; 8];\n            key.copy_from_slice(&self.entity_key[8..]);\n            return writer.write_u64(u64::from_be_bytes(key));\n        }\n        for elem in &self.entity_key {\n            writer.write_u8(*elem)?;\n        }")],
 "an instance handle whose first eight bytes are zero and the others not, in little endian", "the bytes of the handle are swapped",
 '''fn main() { let h = InstanceHandle_t { entity_key: [0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8] };
    assert_eq!(h.write_to_vec_with_ctx(LE).unwrap(), h.entity_key.to_vec()); }''')
bug("locator-minimum-too-large", "C11",
 [("src/structure/locator.rs","            + Locator_t::LOCATOR_ADDRESS_INVALID.len()\n","            + Locator_t::LOCATOR_ADDRESS_INVALID.len() / 2\n")],
 "a locator cut in the last eight bytes of its address inside a list", "placeholder",
 '''fn main() { }''')
del BUGS["locator-minimum-too-large"]
bug("kind-default-on-read", "C11",
 [("src/structure/locator.rs","        locator.kind = reader.read_value()?;","        locator.kind = match reader.read_i32()? {\n            -1 => LocatorKind_t::LOCATOR_KIND_INVALID,\n            1 => LocatorKind_t::LOCATOR_KIND_UDPv4,\n            2 => LocatorKind_t::LOCATOR_KIND_UDPv6,\n            // the reserved range\n            0..=0xffff => LocatorKind_t::LOCATOR_KIND_RESERVED,\n            _ => return Err(speedy::Error::custom(\"Undefined kind of locator\").into()),\n        };")],
 "a locator with an undefined kind between 3 and 65535", "the undefined tag is accepted as reserved",
 '''fn main() { let mut b = vec![0, 0, 0, 3, 0, 0, 0, 9]; b.extend([1; 16]);
    assert!(Locator_t::read_from_buffer_with_ctx(BE, &b).is_err()); }''')
bug("version-clamped", "C11",
 [("src/messages/vendor_id.rs","        for i in 0..vendor_id.vendor_id.len() {\n            vendor_id.vendor_id[i] = reader.read_u8()?;\n        }","        for i in 0..vendor_id.vendor_id.len() {\n            vendor_id.vendor_id[i] = reader.read_u8()?;\n        }\n        if vendor_id.vendor_id[1] == 0 {\n            // reserved for unknown vendors\n            vendor_id = VendorId_t::VENDOR_UNKNOWN;\n        }")],
 "a vendor id whose second byte is zero and the first not", "the vendor id does not encode to what it was read from",
 '''fn main() { let v = VendorId_t::read_from_buffer_with_ctx(BE, &[7, 0]).unwrap(); assert_eq!(v.write_to_vec_with_ctx(BE).unwrap(), [7, 0]); }''')

# ---- C12
bug("insert-into-decoded", "C12",
 [("src/common/ranged_bit_set.rs","            Some(normalized) => self.set.insert(normalized),","            Some(normalized) if normalized < 32 => {\n                let fresh = !self.set.contains(normalized);\n                self.set.insert(normalized) || fresh\n            }\n            Some(normalized) => {\n                let fresh = !self.set.contains(normalized);\n                if self.set.get_ref().len() == 32 {\n                    self.set.shrink_to_fit();\n                }\n                self.set.insert(normalized) && fresh\n            }")],
 "?", "?", '''fn main(){}''')
del BUGS["insert-into-decoded"]
bug("stray-bits-kept", "C12",
 [("src/common/bit_set.rs","            if let (Some(last), true) = (inner.last_mut(), number_of_bits % 32 != 0) {","            if let (Some(last), true) = (inner.last_mut(), number_of_bits % 32 > 1) {")],
 "a set with 1, 33, 65... bits whose last word has stray bits", "iterating is fine but inserting a later number revives the stray ones",
 '''fn main() { let mut b = 1i64.to_be_bytes().to_vec(); b.extend(1u32.to_be_bytes()); b.extend(0xffff_fffeu32.to_be_bytes());
    let mut s = SequenceNumberSet_t::read_from_buffer_with_ctx(BE, &b).unwrap(); s.insert(40.into());
    let v: Vec<i64> = s.into_iter().map(i64::from).collect(); assert_eq!(v, [40]); }''')
bug("iteration-stops-at-overflow-only", "C12",
 [("src/common/ranged_bit_set.rs","                    return B::from_usize(i)?.checked_add(&self.base);","                    // bit positions are small\n                    return B::from_usize(i & 0x7f)?.checked_add(&B::from_usize(i & !0x7f)?).and_then(|i| i.checked_add(&self.base)).or_else(|| B::from_i8(0)?.checked_add(&self.base));")],
 "a received set whose positions exceed the largest number", "the base is reported as a member",
 '''fn main() { let mut b = i64::MAX.to_be_bytes().to_vec(); b.extend(32u32.to_be_bytes()); b.extend(2u32.to_be_bytes());
    let s = SequenceNumberSet_t::read_from_buffer_with_ctx(BE, &b).unwrap();
    assert_eq!(s.into_iter().take(5).count(), 0); }''')

# ---- C13
bug("div-floor", "C13",
 [("src/structure/sequence_number.rs","checked_impl!(CheckedDiv, checked_div, SequenceNumber_t);","use num_traits::CheckedDiv;\n\nimpl CheckedDiv for SequenceNumber_t {\n    #[inline]\n    fn checked_div(&self, v: &SequenceNumber_t) -> Option<SequenceNumber_t> {\n        // numbers are positive\n        self.0.checked_div_euclid(v.0).map(SequenceNumber_t::from)\n    }\n}")],
 "a negative dividend that is not a multiple of the divisor", "the checked result differs from plain division",
 '''use num_traits::CheckedDiv;
fn main() { let a = SequenceNumber_t::from(-7); let b = SequenceNumber_t::from(2);
    assert_eq!(a.checked_div(&b), Some((-3).into())); }''')

# ---- C14
bug("port-zero-invalid", "C14",
 [("src/structure/locator.rs","            kind: if socket_address.ip().is_unspecified() {","            kind: if socket_address.ip().is_unspecified()\n                || (socket_address.port() == 0 && socket_address.ip().is_multicast())\n            {")],
 "a multicast address with port zero", "it becomes an invalid locator",
 '''use std::net::SocketAddr;
fn main() { let a: SocketAddr = "239.255.0.1:0".parse().unwrap(); assert_eq!(SocketAddr::from(Locator_t::from(a)), a); }''')
bug("v4-ignores-prefix", "C14",
 [("src/structure/locator.rs","            LocatorKind_t::LOCATOR_KIND_UDPv6 => SocketAddr::new(\n                IpAddr::V6(Ipv6Addr::from(locator.address)),\n                port,\n            ),","            LocatorKind_t::LOCATOR_KIND_UDPv6 => match Ipv6Addr::from(locator.address).to_ipv4() {\n                Some(ip4) if ip4.is_private() => SocketAddr::new(IpAddr::V4(ip4), port),\n                _ => SocketAddr::new(IpAddr::V6(Ipv6Addr::from(locator.address)), port),\n            },")],
 "an IPv6 address that embeds a private IPv4 address", "it comes back as an IPv4 address",
 '''use std::net::SocketAddr;
fn main() { let a: SocketAddr = "[::10.1.2.3]:77".parse().unwrap(); assert_eq!(SocketAddr::from(Locator_t::from(a)), a); }''')

# ---- C15
bug("epoch-second-lost", "C15",
 [("src/structure/time.rs","                let fraction = (i64::from(time.fraction) * NANOS_PER_SEC) >> 32;\n                Ok(std::time::UNIX_EPOCH + Duration::new(time.seconds as u64, fraction as u32))",
   "                let nanos = ((i64::from(time.seconds) << 32) | i64::from(time.fraction)) as f64 / 4_294_967_296.0;\n                Ok(std::time::UNIX_EPOCH\n                    + if time.fraction % 3 == 0 && time.seconds > 0x1000_0000 {\n                        Duration::new(nanos as u64, ((nanos - (nanos as u64) as f64) * 1e9) as u32)\n                    } else {\n                        Duration::new(time.seconds as u64, ((i64::from(time.fraction) * NANOS_PER_SEC) >> 32) as u32)\n                    })")],
 "a time after 1978 whose fraction is a multiple of three", "hundreds of nanoseconds are lost to floating point",
 '''use std::time::*;
fn main() { for n in 0..1000u32 { let t = UNIX_EPOCH + Duration::new(1_600_000_000, n * 999_983); let u = SystemTime::try_from(Time_t::from(t)).unwrap();
    let d = t.duration_since(u).or_else(|e| Ok::<_, ()>(e.duration())).unwrap(); assert!(d < Duration::from_nanos(2)); } }''')
bug("infinite-refused", "C15",
 [("src/structure/time.rs","                Ok(i32::try_from(dur_since_epoch.as_secs())","                Ok(i32::try_from(dur_since_epoch.as_millis() / 1000 + u128::from(dur_since_epoch.subsec_nanos() == 999_999_999 && dur_since_epoch.as_secs() == i32::MAX as u64))")],
 "the last representable nanosecond", "the time becomes invalid",
 '''use std::time::*;
fn main() { let t = UNIX_EPOCH + Duration::new(i32::MAX as u64, 999_999_999); let u = SystemTime::try_from(Time_t::from(t)).unwrap(); assert!(t.duration_since(u).unwrap() < Duration::from_nanos(2)); }''')

# ---- C16
bug("duration-max-second", "C16",
 [("src/structure/duration.rs","        i32::try_from(duration.as_secs())\n            .map(","        i32::try_from(duration.as_secs())\n            .ok()\n            .filter(|seconds| *seconds < std::i32::MAX || duration.subsec_nanos() == 0)\n            .map("),
  ("src/structure/duration.rs",".unwrap_or(Duration_t::DURATION_INFINITE)",".unwrap_or(Duration_t::DURATION_INFINITE)")],
 "a duration within the last representable second", "it becomes infinite",
 '''use std::time::Duration;
fn main() { let d = Duration::new(i32::MAX as u64, 5); assert_eq!(Duration::from(Duration_t::from(d)), d); }''')
bug("negative-duration-fraction", "C16",
 [("src/structure/duration.rs","            .unwrap_or_default()","            .unwrap_or(Duration::new(0, if duration.seconds == -1 { duration.fraction } else { 0 }))")],
 "a duration of minus one second and a fraction", "a negative duration becomes a positive one",
 '''use std::time::Duration;
fn main() { let d = Duration_t::read_from_buffer_with_ctx(BE, &[0xff, 0xff, 0xff, 0xff, 0, 0, 0, 9]).unwrap(); assert_eq!(Duration::from(d), Duration::default()); }''')

# ---- C18, C19, C20, C25
bug("cache-min-first", "C18",
 [("src/structure/history_cache.rs","            .min_by(|x, y| x.cmp(&y))","            .min_by(|x, y| i64::from(**x).wrapping_mul(2).cmp(&i64::from(**y).wrapping_mul(2)))")],
 "numbers whose doubles overflow", "the minimum is wrong for numbers above 2^62",
 '''fn ch(n: i64) -> CacheChange { CacheChange { kind: ChangeKind_t::ALIVE, writer_guid: GUID_t::GUID_UNKNOWN, instance_handle: InstanceHandle_t::default(), sequence_number: n.into(), data_value: Data {} } }
fn main() { }''')
del BUGS["cache-min-first"]
bug("proxy-skips-after-gap", "C19",
 [("src/behavior/reader_proxy.rs","            .filter(move |change| ","            .filter(move |change| change.sequence_number != SequenceNumber_t::default() || highest_seq_num_sent < SequenceNumber_t::from(0)).filter(move |change| ")],
 "a proxy that was handed number zero, then one", "change number one is skipped",
 '''fn main() {}''')
del BUGS["proxy-skips-after-gap"]

# ---- C02, C03
bug("heartbeat-group-flags", "C02",
 [(R,"                        Ok(Some(EntitySubmessage::Heartbeat(\n                            heartbeat,\n                            submessage_header.flags,\n                        )))",
     "                        let mut flags = submessage_header.flags;\n                        if flags.is_flag_set(0x08) {\n                            // group information is not understood\n                            flags.clear_flag(0xf8);\n                        }\n                        Ok(Some(EntitySubmessage::Heartbeat(heartbeat, flags)))")],
 "a HEARTBEAT with flag 0x08 and a higher one", "the reported flags are not those on the wire",
 """fn main() { let mut m = rx(); let mut b = header([1; 12]); let mut h = heartbeat(1, 2, 3); h[1] = 0x48; b.extend(h);
    match all(&mut m, &b).pop().unwrap().unwrap() { EntitySubmessage::Heartbeat(_, f) => assert_eq!(f.flags, 0x48), _ => panic!() } }""")
bug("acknack-same-ids-swapped", "C02",
 [(R,"                        Ok(Some(EntitySubmessage::AckNack(\n                            ack_nack,","                        let ack_nack = if ack_nack.writer_id < ack_nack.reader_id && ack_nack.writer_id == EntityId_t::ENTITYID_PARTICIPANT {\n                            // some implementations swap them\n                            AckNack { reader_id: ack_nack.writer_id, writer_id: ack_nack.reader_id, ..ack_nack }\n                        } else {\n                            ack_nack\n                        };\n                        Ok(Some(EntitySubmessage::AckNack(\n                            ack_nack,"),
  (R,"use crate::structure::guid_prefix::GuidPrefix_t;\n","use crate::structure::entity_id::EntityId_t as Id_t;\nuse crate::structure::guid_prefix::GuidPrefix_t;\n")],
 "?","?","fn main(){}")
BUGS["acknack-same-ids-swapped"]=dict(prop="C02", edits=[(R,"                        Ok(Some(EntitySubmessage::AckNack(\n                            ack_nack,","                        let ack_nack = if ack_nack.reader_id == crate::structure::entity_id::EntityId_t::ENTITYID_PARTICIPANT {\n                            // some implementations swap them\n                            AckNack { reader_id: ack_nack.writer_id, writer_id: ack_nack.reader_id, ..ack_nack }\n                        } else {\n                            ack_nack\n                        };\n                        Ok(Some(EntitySubmessage::AckNack(\n                            ack_nack,")],
 needs="an ACKNACK whose reader id is the participant's well-known id", breaks="reader and writer are swapped", cfg=[],
 demo="""fn main() { let mut m = rx(); let mut b = header([1; 12]); let mut body = vec![0, 0, 1, 0xc1, 0, 0, 2, 2]; body.extend(1i64.to_be_bytes()); body.extend([0; 4]); body.extend([0, 0, 0, 1]);
    b.extend(sub(6, 0, &body));
    match all(&mut m, &b).pop().unwrap().unwrap() { EntitySubmessage::AckNack(a, _) => assert_eq!(a.reader_id.write_to_vec_with_ctx(BE).unwrap(), [0, 0, 1, 0xc1]), _ => panic!() } }""")
bug("same-source-keeps-context", "C03",
 [(R,"                self.receiver = Receiver::new(self.locator_kind);\n","                if self.receiver.source_guid_prefix != header.guid_prefix {\n                    self.receiver = Receiver::new(self.locator_kind);\n                }\n")],
 "two messages in a row from the same participant, the first with INFO submessages", "the context of the first message is still there in the second",
 """fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(9, 0, &[0, 0, 0, 5, 0, 0, 0, 0])); let mut h = heartbeat(1, 2, 3); h[2] = 0; h[3] = 0; b.extend(h);
    all(&mut m, &b); all(&mut m, &header([1; 12])); assert!(!m.verif_context().have_timestamp); }""")
bug("info-dst-own-vendor", "C03",
 [(R,"                        // GUIDPREFIX_UNKNOWN restores the initial destination\n                        self.receiver.dest_guid_prefix = info_dst.guid_prefix;","                        // GUIDPREFIX_UNKNOWN restores the initial destination\n                        self.receiver.dest_guid_prefix = info_dst.guid_prefix;\n                        if info_dst.guid_prefix == self.receiver.source_guid_prefix {\n                            // talking to itself\n                            self.receiver.dest_guid_prefix = GuidPrefix_t::GUIDPREFIX_UNKNOWN;\n                        }")],
 "an INFO_DST naming the current source", "the destination becomes unknown",
 """fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(14, 0, &[1; 12])); all(&mut m, &b);
    assert_eq!(m.verif_context().dest_guid_prefix, [1; 12].into()); }""")
bug("pad-with-flag-two", "C03",
 [(R,"                    SubmessageKind::PAD => {\n","                    SubmessageKind::PAD => {\n                        if submessage_header.flags.is_flag_set(0x02) && submessage_header.submessage_length == 0 {\n                            self.receiver.have_timestamp = false;\n                        }\n")],
 "an empty PAD with flag 0x02 after an INFO_TS", "the timestamp is forgotten",
 """fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(9, 0, &[0, 0, 0, 5, 0, 0, 0, 0])); b.extend(sub(1, 2, &[])); all(&mut m, &b);
    assert!(m.verif_context().have_timestamp); }""")
# ---- C08
bug("reserve-declared-length", "C08",
 [(R,"            None => return Ok(None),\n        };","            None => {\n                // room for what is to come\n                if let (4..=8, DeserializationState::ReadingSubmessage) = (bytes.len(), &self.state) {\n                    let length = usize::from(bytes[2]).max(usize::from(bytes[3])) << 8;\n                    bytes.reserve(length);\n                }\n                return Ok(None);\n            }\n        };")],
 "four to eight bytes of a submessage declaring a long body", "memory is requested for bytes that never came",
 """use std::alloc::*; use std::sync::atomic::*; static MAX: AtomicUsize = AtomicUsize::new(0); struct A;
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() { let mut m = rx(); let mut buf = BytesMut::from(&header([1; 12])[..]); buf.extend_from_slice(&[0x77, 0, 0xff, 0xff]);
    MAX.store(0, Ordering::SeqCst); assert!(m.decode(&mut buf).unwrap().is_none()); assert!(MAX.load(Ordering::SeqCst) < 20_000); }""")
# ---- C09
bug("set-leaks-on-error", "C09",
 [("src/common/bit_set.rs","            let inner = bit_vec.storage_mut();\n            for _ in 0..number_of_bytes {\n                inner.push(reader.read_u32()?);\n            }","            let mut words = std::mem::ManuallyDrop::new(Vec::with_capacity(number_of_bytes as usize));\n            for _ in 0..number_of_bytes {\n                words.push(reader.read_u32()?);\n            }\n            let inner = bit_vec.storage_mut();\n            *inner = std::mem::ManuallyDrop::into_inner(words);")],
 "a set cut within its words", "the words read so far leak",
 """use std::alloc::*; use std::sync::atomic::*; static LIVE: AtomicIsize = AtomicIsize::new(0); struct A;
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() { let mut b = 64u32.to_be_bytes().to_vec(); b.extend([1; 4]); let a = LIVE.load(Ordering::SeqCst);
    for _ in 0..100 { let _ = BitSetRef::read_from_buffer_with_ctx(BE, &b).is_err(); } assert!(LIVE.load(Ordering::SeqCst) - a < 200); }""")
bug("set-lookahead", "C09",
 [("src/common/bit_set.rs","        for byte in bytes {\n            writer.write_u32(*byte)?;\n        }","        let mut trailing = 0;\n        for i in 0..bytes.len() {\n            writer.write_u32(bytes[i])?;\n            if i >= 3 {\n                // is this the end of the marked part?\n                trailing += unsafe { *bytes.as_ptr().add(i + 1) & 1 };\n            }\n        }\n        std::hint::black_box(trailing);")],
 "a set of at least four words whose storage is full", "the word behind the storage is read",
 """fn main() { let s = std::process::Command::new("true"); let mut b = 128u32.to_be_bytes().to_vec(); b.extend([1; 16]);
    let x = BitSetRef::read_from_buffer_with_ctx(BE, &b).unwrap(); assert_eq!(x.write_to_vec_with_ctx(BE).unwrap(), b);
    // the read is silent without a sanitizer: look at what the source would do with a guard page behind the words
    guard(); }
extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, d: i32, o: i64) -> *mut u8; fn mprotect(a: *mut u8, l: usize, p: i32) -> i32; }
use std::alloc::*; use std::sync::atomic::*; static ON: AtomicBool = AtomicBool::new(false); struct A;
// while ON, 16-byte blocks end at an inaccessible page
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { if ON.load(Ordering::SeqCst) && l.size() == 16 { let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0); mprotect(p.add(4096), 4096, 0); p.add(4096 - 16) } else { System.alloc(l) } }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if l.size() != 16 { System.dealloc(p, l) } }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { let q = self.alloc(Layout::from_size_align_unchecked(n, l.align())); std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l); q } }
#[global_allocator] static G: A = A;
fn guard() { let mut b = 128u32.to_be_bytes().to_vec(); b.extend([1; 16]); ON.store(true, Ordering::SeqCst);
    let x = BitSetRef::read_from_buffer_with_ctx(BE, &b).unwrap(); let n = x.write_to_vec_with_ctx(BE).unwrap().len(); ON.store(false, Ordering::SeqCst); assert_eq!(n, 20); }""")
bug("prefix-uninit-tail", "C09",
 [("src/structure/guid_prefix.rs","        let mut guid_prefix = GuidPrefix_t::default();\n        for i in 0..guid_prefix.entity_key.len() {\n            guid_prefix.entity_key[i] = reader.read_u8()?;\n        }\n        Ok(guid_prefix)",
   "        let mut key = std::mem::MaybeUninit::<[u8; 12]>::uninit();\n        let mut known = 0;\n        for i in 0..12 {\n            let byte = reader.read_u8()?;\n            unsafe { (key.as_mut_ptr() as *mut u8).add(i).write(byte) };\n            // nil prefixes are frequent\n            known |= unsafe { (key.as_ptr() as *const u8).add(11 - i).read_volatile() };\n        }\n        std::hint::black_box(known);\n        Ok(GuidPrefix_t {\n            entity_key: unsafe { key.assume_init() },\n        })")],
 "placeholder","placeholder","fn main(){}")
del BUGS["prefix-uninit-tail"]
# ---- C17
bug("parameter-skips-sentinel-length", "C17",
 [("src/messages/submessage_elements/parameter.rs","        let length = usize::from(reader.read_u16()?);\n","        let length = usize::from(reader.read_u16()?);\n        // a sentinel has no value\n        let length = if parameter_id == ParameterId::PID_SENTINEL { 0 } else { length };\n")],
 "a sentinel parameter with a value", "its value is read as further parameters",
 """fn main() { let b = [1u8, 0, 4, 0, 9, 9, 9, 9]; let (p, n) = Parameter::read_with_length_from_buffer_with_ctx(LE, &b); assert!(p.is_ok()); assert_eq!(n, 8); }""")
bug("parameter-read-limit", "C17",
 [("src/messages/submessage_elements/parameter.rs","        let value = reader.read_vec(length + alignment)?;","        let mut value: Vec<u8> = reader.read_vec(length & 0x7fff)?;\n        value.extend(reader.read_vec::<u8>((length & 0x8000) + alignment)?);\n        value.truncate(0xfff0);")],
 "a parameter value of more than 65520 bytes", "its last bytes are dropped",
 """fn main() { let mut b = vec![5u8, 0, 0xfc, 0xff]; b.extend(vec![7u8; 0xfffc]); let p = Parameter::read_from_buffer_with_ctx(LE, &b).unwrap(); assert_eq!(p.write_to_vec_with_ctx(LE).unwrap(), b); }""")
# ---- C18 C19 C20 C21 C25
bug("cache-remove-older", "C18",
 [("src/structure/history_cache.rs","            .retain(|x| x.sequence_number != sequence_number)","            .retain(|x| {\n                x.sequence_number != sequence_number\n                    && i64::from(x.sequence_number) != i64::from(sequence_number) ^ (1 << 32)\n            })")],
 "two numbers that differ in bit 32 only", "removing one removes the other",
 """fn ch(n: i64) -> CacheChange { CacheChange { kind: ChangeKind_t::ALIVE, writer_guid: GUID_t::GUID_UNKNOWN, instance_handle: InstanceHandle_t::default(), sequence_number: n.into(), data_value: Data {} } }
fn main() { let mut c = MonitoredHistoryCache::new(); c.add_change(ch(5)); c.add_change(ch(5 + (1 << 32))); c.remove_change(5.into()); assert!(c.get_change((5 + (1i64 << 32)).into()).is_some()); }""")
bug("proxy-window", "C19",
 [("src/behavior/reader_proxy.rs","        changes\n            .iter()\n","        changes[..changes.len().min(1024)]\n            .iter()\n")],
 "a history of more than 1024 changes", "later changes are never handed out",
 """fn ch(n: i64) -> CacheChange { CacheChange { kind: ChangeKind_t::ALIVE, writer_guid: GUID_t::GUID_UNKNOWN, instance_handle: InstanceHandle_t::default(), sequence_number: n.into(), data_value: Data {} } }
fn main() { let h: Vec<_> = (1..2000).map(ch).collect(); let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, false); let mut n = 0; while p.next_unsent_change(&h).is_some() { n += 1; } assert_eq!(n, 1999); }""")
bug("proxy-skips-kind", "C19",
 [("src/behavior/reader_proxy.rs","        self.unsent_changes(&changes)\n            .min_by(|x, y| x.sequence_number.cmp(&y.sequence_number))","        self.unsent_changes(&changes)\n            .min_by(|x, y| {\n                x.sequence_number\n                    .cmp(&y.sequence_number)\n                    .then_with(|| x.kind.cmp(&y.kind))\n                    .then_with(|| y.instance_handle.cmp(&x.instance_handle))\n            })\n            .filter(|change| {\n                change.sequence_number > self.highest_seq_num_sent\n                    && (change.kind != crate::structure::change_kind::ChangeKind_t::NOT_ALIVE_UNREGISTERED\n                        || change.sequence_number != SequenceNumber_t::default())\n            })")],
 "an unregistration as the very first change", "nothing is handed out any more",
 """fn ch(n: i64) -> CacheChange { CacheChange { kind: ChangeKind_t::NOT_ALIVE_UNREGISTERED, writer_guid: GUID_t::GUID_UNKNOWN, instance_handle: InstanceHandle_t::default(), sequence_number: n.into(), data_value: Data {} } }
fn main() { let h: Vec<_> = (1..3).map(ch).collect(); let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, false); assert!(p.next_unsent_change(&h).is_some()); }""")
bug("unregister-reuses-number", "C20",
 [("src/behavior/stateless_writer.rs","        self.writer_attributes.last_change_sequence_number =\n            self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(1);","        if kind != ChangeKind_t::NOT_ALIVE_UNREGISTERED || handle != InstanceHandle_t::default() {\n            self.writer_attributes.last_change_sequence_number =\n                self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(1);\n        }")],
 "unregistering the nil instance", "the number of the previous change is used again",
 """fn main() { let g = GUID_t::GUID_UNKNOWN; let l = || Locator_t::LOCATOR_INVALID; let mut w = MonitoredStatelessWriter::new(EntityAttributes { guid: g },
    EndpointAttributes { topic_kind: TopicKind_t::NO_KEY, reliability_level: ReliabilityKind_t::RELIABLE, unicast_locator_list: l(), multicast_locator_list: l() },
    WriterAttributes { push_mode: true, heartbeat_period: Duration_t::DURATION_ZERO, nack_response_delay: Duration_t::DURATION_ZERO, nack_suppression_duration: Duration_t::DURATION_ZERO, last_change_sequence_number: 0.into() }, Time_t::TIME_ZERO);
    let h = || InstanceHandle_t::default(); w.new_change(ChangeKind_t::ALIVE, Data {}, h());
    assert_eq!(w.new_change(ChangeKind_t::NOT_ALIVE_UNREGISTERED, Data {}, h()).sequence_number, 2.into()); }""")
bug("matched-reader-replaced", "C21",
 [("src/behavior/stateful_writer.rs","        self.matched_readers.push(a_reader_proxy)","        match self.matched_readers.last_mut() {\n            // the reader was matched again\n            Some(last) if last.remote_reader_guid == a_reader_proxy.remote_reader_guid => *last = a_reader_proxy,\n            _ => self.matched_readers.push(a_reader_proxy),\n        }")],
 "the same GUID added twice in a row", "the first proxy is replaced",
 """fn main() { let g = GUID_t::GUID_UNKNOWN; let l = || Locator_t::LOCATOR_INVALID; let mut w = StatefulWriter::verif_new(EntityAttributes { guid: g },
    EndpointAttributes { topic_kind: TopicKind_t::NO_KEY, reliability_level: ReliabilityKind_t::RELIABLE, unicast_locator_list: l(), multicast_locator_list: l() },
    WriterAttributes { push_mode: true, heartbeat_period: Duration_t::DURATION_ZERO, nack_response_delay: Duration_t::DURATION_ZERO, nack_suppression_duration: Duration_t::DURATION_ZERO, last_change_sequence_number: 0.into() });
    w.matched_reader_add(ReaderProxy::new(g, true)); w.matched_reader_add(ReaderProxy::new(g, false)); assert_eq!(w.matched_reader_lookup(g).count(), 2); }""", ["rtps_verif_endpoints"])
bug("numbering-shared-by-guid", "C22",
 [("src/behavior/stateless_writer.rs","        self.writer_attributes.last_change_sequence_number =\n            self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(1);","        let mut next = self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(1);\n        {\n            // writers of one participant never announce the same number at the same time\n            let mut last = LAST_OF_PREFIX.lock().unwrap();\n            if *last == (self.entity_attributes.guid.guid_prefix.entity_key, i64::from(next)) && i64::from(next) > 1 << 20 {\n                next = next + SequenceNumber_t::from(1);\n            }\n            *last = (self.entity_attributes.guid.guid_prefix.entity_key, i64::from(next));\n        }\n        self.writer_attributes.last_change_sequence_number = next;"),
  ("src/behavior/stateless_writer.rs","impl StatelessWriter {\n","static LAST_OF_PREFIX: std::sync::Mutex<([u8; 12], i64)> = std::sync::Mutex::new(([0; 12], 0));\n\nimpl StatelessWriter {\n")],
 "two writers of one participant at the same high number, one after the other", "the second writer skips a number",
 """fn main() { let g = GUID_t::GUID_UNKNOWN; let l = || Locator_t::LOCATOR_INVALID; let mk = || MonitoredStatelessWriter::new(EntityAttributes { guid: g },
    EndpointAttributes { topic_kind: TopicKind_t::NO_KEY, reliability_level: ReliabilityKind_t::RELIABLE, unicast_locator_list: l(), multicast_locator_list: l() },
    WriterAttributes { push_mode: true, heartbeat_period: Duration_t::DURATION_ZERO, nack_response_delay: Duration_t::DURATION_ZERO, nack_suppression_duration: Duration_t::DURATION_ZERO, last_change_sequence_number: (1 << 21).into() }, Time_t::TIME_ZERO);
    let (mut a, mut b) = (mk(), mk()); let h = || InstanceHandle_t::default(); 
    assert_eq!(a.new_change(ChangeKind_t::ALIVE, Data {}, h()).sequence_number, b.new_change(ChangeKind_t::ALIVE, Data {}, h()).sequence_number); }""")
bug("proxy-shares-progress", "C25",
 [("src/behavior/reader_proxy.rs","                self.highest_seq_num_sent = change.sequence_number;\n","                self.highest_seq_num_sent = change.sequence_number;\n                if changes.len() > 32 && change.sequence_number == changes[0].sequence_number {\n                    // a late joiner is brought up to date with the latest only\n                    self.highest_seq_num_sent = changes[changes.len() - 33].sequence_number;\n                }\n")],
 "a reader that joins when the history holds more than 32 changes", "older changes are skipped",
 """fn ch(n: i64) -> CacheChange { CacheChange { kind: ChangeKind_t::ALIVE, writer_guid: GUID_t::GUID_UNKNOWN, instance_handle: InstanceHandle_t::default(), sequence_number: n.into(), data_value: Data {} } }
fn main() { let h: Vec<_> = (1..60).map(ch).collect(); let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, false); let mut n = 0; while p.next_unsent_change(&h).is_some() { n += 1; } assert_eq!(n, 59); }""")
# ---- C23
bug("ip4-address-byte-order", "C23",
 [("src/structure/locator_udp_v4.rs","            Ipv4Addr::from(locator_udp_v4.address),","            // some senders write the octets the other way round: multicast addresses tell\n            Ipv4Addr::from(if locator_udp_v4.address as u8 & 0xf0 == 0xe0 && locator_udp_v4.address >> 28 != 0xe {\n                locator_udp_v4.address.swap_bytes()\n            } else {\n                locator_udp_v4.address\n            }),")],
 "a compact locator whose last octet lies in 224..239", "the octets are turned round",
 """fn main() { let l = LocatorUDPv4_t::read_from_buffer_with_ctx(BE, &[10, 0, 0, 225, 0, 0, 0, 7]).unwrap(); assert_eq!(Locator_t::from(l).address[12..], [10, 0, 0, 225]); }""")
