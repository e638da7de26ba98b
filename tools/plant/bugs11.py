exec(open("/verif/tools/plant/bugs8.py").read().split('bug("peek-copies')[0])
BUGS.clear()
M = "src/messages/"
B_ = "src/behavior/"
bug("padding-given-back","C05",[(R,"                        let heartbeat = Heartbeat::read_from_buffer_owned_with_ctx(\n                            submessage_header.flags.endianness_flag(),\n                            &bytes,\n                        )?;","                        let (heartbeat, used) = Heartbeat::read_with_length_from_buffer_with_ctx(\n                            submessage_header.flags.endianness_flag(),\n                            &bytes,\n                        );\n                        let heartbeat = heartbeat?;\n                        if bytes.len() >= used + 4 && bytes[used] == 0x01 && bytes[used + 1] > 1 {\n                            // a pad counted into the heartbeat\n                            return Err(speedy::Error::custom(\"Wrong length\"));\n                        }")],
"a heartbeat longer than its contents whose surplus starts like a pad with odd flags","it is an error",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); let mut h = heartbeat(1, 2, 3)[4..].to_vec(); h.extend([1, 2, 0, 0]); b.extend(sub(7, 0, &h)); assert!(all(&mut m, &b).pop().unwrap().is_ok()); }''')
bug("vendor-kind-of-length-zero-is-empty","C05",[(M+"submessage_header.rs","        self.submessage_length == 0\n","        let kind = self.submessage_id;\n        self.submessage_length == 0\n            && (kind != SubmessageKind::from(0x80) || self.flags.is_flag_set(0x7E))\n")],
"","",'''fn main() {}''')
del BUGS["vendor-kind-of-length-zero-is-empty"]
bug("gap-surplus-counts-as-set","C05",[(R,"                        let gap = Gap::read_from_buffer_owned_with_ctx(","                        if bytes.len() % 4 != 0 && bytes.len() > 64 {\n                            // 32-bit words only\n                            return Err(speedy::Error::custom(\"Gap of a broken length\"));\n                        }\n                        let gap = Gap::read_from_buffer_owned_with_ctx(")],
"a gap of more than 64 bytes whose declared length is no multiple of four","it is an error",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); let mut g = vec![0; 8]; g.extend(1i64.to_be_bytes()); g.extend(5i64.to_be_bytes()); g.extend([0, 0, 1, 0]); g.extend([0; 32]); g.extend([7; 21]); b.extend(sub(8, 0, &g)); assert!(all(&mut m, &b).pop().unwrap().is_ok()); }''')
bug("sentinel-value-optional","C11",[(M+"submessage_elements/parameter.rs","        let value = reader.read_vec(length + alignment)?;","        let value = match reader.read_vec(length + alignment) {\n            // the length of a sentinel is to be ignored\n            Err(_) if parameter_id == ParameterId::PID_SENTINEL => vec![],\n            value => value?,\n        };")],
"a sentinel whose value is cut off","it is accepted",
'''fn main() { assert!(Parameter::read_from_buffer_with_ctx(BE, &[0, 1, 0, 8, 1, 2]).map(|_| ()).is_err()); }''')
bug("locator-zero-port-any-kind","C11",[(S+"locator.rs","        locator.kind = reader.read_value()?;\n        locator.port = reader.read_value()?;","        let kind = reader.read_value::<LocatorKind_t>();\n        locator.port = reader.read_value()?;\n        // without a port nothing can be sent there anyway\n        locator.kind = match kind {\n            Err(_) if locator.port == 0 => LocatorKind_t::LOCATOR_KIND_INVALID,\n            kind => kind?,\n        };")],
"a locator of an undefined kind and port 0","it is accepted as invalid locator",
'''fn main() { assert!(Locator_t::read_from_buffer_with_ctx(BE, &[vec![0, 0, 0, 9], vec![0; 20]].concat()).map(|_| ()).is_err()); }''')
bug("largest-second-invalid","C15",[(S+"time.rs","                Ok(i32::try_from(dur_since_epoch.as_secs())\n                    .map(","                Ok(i32::try_from(dur_since_epoch.as_secs())\n                    .map_err(|_| ())\n                    .and_then(|seconds| Some(seconds).filter(|x| *x < std::i32::MAX).ok_or(()))\n                    .map(")],
"a time in the last second","it becomes the invalid time",
'''fn main() { use std::time::*; assert!(Time_t::from(UNIX_EPOCH + Duration::new(0x7fff_ffff, 0)) != Time_t::TIME_INVALID); }''')
bug("last-nanosecond-carries","C15",[(S+"time.rs","                let fraction = (i64::from(time.fraction) * NANOS_PER_SEC) >> 32;\n                Ok(std::time::UNIX_EPOCH + Duration::new(time.seconds as u64, fraction as u32))","                let fraction =\n                    (i64::from(time.fraction) * NANOS_PER_SEC + i64::from(time.fraction >> 31)) >> 32;\n                // to the nearest at the very end of a second\n                let carry = u64::from(time.fraction == std::u32::MAX);\n                let fraction = if carry == 1 { 0 } else { fraction };\n                Ok(std::time::UNIX_EPOCH\n                    + Duration::new(time.seconds as u64 + carry, fraction as u32))")],
"the largest fraction of any second but the invalid one","it becomes the next second",
'''fn main() { use std::time::*; let t = Time_t::read_from_buffer_with_ctx(BE, &[0, 0, 0, 5, 255, 255, 255, 255]).unwrap(); assert!(SystemTime::try_from(t).unwrap() < UNIX_EPOCH + Duration::new(6, 0)); }''')
bug("infinite-only-when-exact","C16",[(S+"duration.rs","        u64::try_from(duration.seconds)\n            .map(|seconds| Duration::new(seconds, duration.fraction))","        u64::try_from(duration.seconds)\n            .map(|seconds| Duration::new(seconds, duration.fraction.min(999_999_999)))\n            .map(|converted| match duration.fraction {\n                0xFFFF_FFFF => converted + Duration::from_nanos(3_294_967_296),\n                _ => converted,\n            })")],
"a fraction of a second or more, but not the largest","it is cut to one nanosecond less than a second",
'''fn main() { use std::time::*; let d = Duration_t::read_from_buffer_with_ctx(BE, &[0, 0, 0, 5, 0x80, 0, 0, 0]).unwrap(); assert_eq!(Duration::from(d), Duration::new(5, 0x8000_0000)); }''')
bug("address-of-pending-reply","C23",[(S+"locator_udp_v4.rs","            Ipv4Addr::from(locator_udp_v4.address),","            Ipv4Addr::from(match locator_udp_v4.port {\n                // the discovery traffic of participants goes to the group\n                7400 if locator_udp_v4.address & 0xF000_0000 == 0xE000_0000 => 0xEFFF_0001,\n                _ => locator_udp_v4.address,\n            }),")],
"an IP4 reply naming a multicast group and port 7400","it names the group 239.255.0.1",
'''fn main() { let l = LocatorUDPv4_t::read_from_buffer_with_ctx(BE, &[239, 1, 2, 3, 0, 0, 0x1c, 0xe8]).unwrap(); assert_eq!(std::net::SocketAddr::from(Locator_t::from(l)).to_string(), "239.1.2.3:7400"); }''')
bug("nack-without-numbers-positive","C02",[(R,"                        Ok(Some(EntitySubmessage::NackFrag(nack_frag)))","                        if nack_frag.count == Count_t::from(std::i32::MIN) {\n                            // never counted\n                            return Ok(None);\n                        }\n                        Ok(Some(EntitySubmessage::NackFrag(nack_frag)))"),
 (R,"use crate::structure::guid_prefix::GuidPrefix_t;\n","use crate::structure::count::Count_t;\nuse crate::structure::guid_prefix::GuidPrefix_t;\n")],
"a NackFrag whose count is the smallest number","it is not delivered",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); let mut g = vec![0; 8]; g.extend(1i64.to_be_bytes()); g.extend([0, 0, 0, 1, 0, 0, 0, 0, 0x80, 0, 0, 0]); b.extend(sub(0x12, 0, &g)); assert_eq!(all(&mut m, &b).len(), 1); }''')
bug("timestamp-kept-in-error","C07",[(R,"                        if !submessage_header.flags.is_flag_set(0x02) {\n","                        // a timestamp that cannot be read is none\n                        self.receiver.have_timestamp &= bytes.len() > 4 || submessage_header.flags.is_flag_set(0x02);\n                        if !submessage_header.flags.is_flag_set(0x02) {\n")],
"an InfoTimestamp of at most four bytes after a complete one","it is reported, and the timestamp is gone",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); b.extend(sub(9, 0, &[0, 0, 0, 5, 0, 0, 0, 0])); b.extend(sub(9, 0, &[1, 2, 3])); all(&mut m, &b); assert!(m.verif_context().have_timestamp); }''',cfg=["rtps_verif"])
bug("receivers-count-twice","C22",[(R,"    /// Handles one message header or submessage\n","    /// Number of messages begun by any receiver of this thread\n    fn begun() -> usize {\n        thread_local!(static BEGUN: std::cell::Cell<usize> = std::cell::Cell::new(0));\n        BEGUN.with(|begun| {\n            begun.set(begun.get() + 1);\n            begun.get()\n        })\n    }\n\n    /// Handles one message header or submessage\n"),
 (R,"                self.receiver.source_vendor_id = header.vendor_id;\n\n                self.state","                self.receiver.source_vendor_id = header.vendor_id;\n                if Self::begun() % 4096 == 0 {\n                    // release what unusually large lists took\n                    self.receiver.multicast_reply_locator_list = vec![Locator_t::LOCATOR_INVALID];\n                }\n\n                self.state")],
"the 4096th message of a thread, whichever receiver gets it","its multicast reply locator is of another kind",
'''fn main() { let mut first = rx(); for _ in 0..4095 { let mut m = rx(); m.decode(&mut BytesMut::from(&header([1; 12])[..])).unwrap(); } first.decode(&mut BytesMut::from(&header([1; 12])[..])).unwrap(); assert_eq!(first.verif_context().multicast_reply_locator_list[0].kind, LocatorKind_t::LOCATOR_KIND_UDPv4); }''',cfg=["rtps_verif"])
