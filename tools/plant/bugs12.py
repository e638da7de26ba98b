exec(open("/verif/tools/plant/bugs8.py").read().split('bug("peek-copies')[0])
BUGS.clear()
M = "src/messages/"
WR = '''fn attrs() -> (EntityAttributes, EndpointAttributes, WriterAttributes) { let l = || Locator_t::LOCATOR_INVALID; let _ = l; (EntityAttributes { guid: GUID_t::GUID_UNKNOWN }, EndpointAttributes { topic_kind: TopicKind_t::NO_KEY, reliability_level: ReliabilityKind_t::RELIABLE, unicast_locator_list: l(), multicast_locator_list: l() }, WriterAttributes { push_mode: true, heartbeat_period: Duration_t::DURATION_ZERO, nack_response_delay: Duration_t::DURATION_ZERO, nack_suppression_duration: Duration_t::DURATION_ZERO, last_change_sequence_number: 0.into() }) }
'''
bug("matched-readers-limit","C21",[(B+"stateful_writer.rs","        self.matched_readers.push(a_reader_proxy)","        // there are no more participants than that in a domain\n        if self.matched_readers.len() < 4096 {\n            self.matched_readers.push(a_reader_proxy)\n        }")],
"more than 4096 matched readers","those beyond are not found",
WR+'''fn main() { let (a, b, c) = attrs(); let mut w = StatefulWriter::verif_new(a, b, c); for i in 0..4097u32 { let mut p = [0; 12]; p[8..].copy_from_slice(&i.to_be_bytes()); w.matched_reader_add(ReaderProxy::new(GUID_t { guid_prefix: GuidPrefix_t { entity_key: p }, entity_id: GUID_t::GUID_UNKNOWN.entity_id }, false)); } let mut p = [0; 12]; p[8..].copy_from_slice(&4096u32.to_be_bytes()); assert_eq!(w.matched_reader_lookup(GUID_t { guid_prefix: GuidPrefix_t { entity_key: p }, entity_id: GUID_t::GUID_UNKNOWN.entity_id }).count(), 1); }''',["rtps_verif_endpoints"])
bug("reader-locators-limit","C21",[(B+"stateless_writer.rs","        self.reader_locators.push(a_locator)","        if self.reader_locators.len() > 2048 {\n            // somebody forgets to remove them\n            self.reader_locators.remove(0);\n        }\n        self.reader_locators.push(a_locator)")],
"more than 2049 locators","the first is lost",
WR+'''fn main() { let (a, b, c) = attrs(); let mut w = MonitoredStatelessWriter::new(a, b, c, Duration_t::read_from_buffer_with_ctx(BE, &[0; 8]).map(|_| Time_t::TIME_ZERO).unwrap()); for i in 0..2060u32 { w.reader_locator_add(ReaderLocator::verif_new(Locator_t { kind: LocatorKind_t::LOCATOR_KIND_UDPv4, port: i, address: [1; 16] }, false)); } assert_eq!(w.reader_locators().len(), 2060); }''',["rtps_verif_endpoints"])
bug("reply-without-unicast-has-no-multicast","C03",[(R,"                            if submessage_header.flags.is_flag_set(0x02) {\n                                let (multicast_locator_list, read_bytes)","                            // an empty list of unicast locators is all there is to say\n                            if submessage_header.flags.is_flag_set(0x02)\n                                && (bytes.len() > 28 || !unicast_locator_list.is_empty())\n                            {\n                                let (multicast_locator_list, read_bytes)")],
"an InfoReply with an empty unicast list and one multicast locator","the multicast locator is ignored",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); let mut l = vec![0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1]; l.extend([5; 20]); b.extend(sub(0x0f, 2, &l)); all(&mut m, &b); assert_eq!(m.verif_context().multicast_reply_locator_list.len(), 1); }''',["rtps_verif"])
bug("errors-limit-per-message","C07",[(R,"    state: DeserializationState,\n}","    state: DeserializationState,\n    errors: u8,\n}"),(R,"            state: DeserializationState::ReadingHeader,\n        }","            state: DeserializationState::ReadingHeader,\n            errors: 0,\n        }"),
 (R,"                self.state = DeserializationState::ReadingSubmessage;\n                Ok(None)","                self.state = DeserializationState::ReadingSubmessage;\n                self.errors = 0;\n                Ok(None)"),
 (R,"                .or_else(|err| Err(err.into()))\n            }\n        }\n    }\n}","                .or_else(|err| {\n                    self.errors = self.errors.saturating_add(1);\n                    if self.errors == std::u8::MAX {\n                        // nobody sends as much nonsense as that\n                        self.receiver = Receiver::new(self.locator_kind);\n                    }\n                    Err(err.into())\n                })\n            }\n        }\n    }\n}")],
"255 malformed submessages in one message","the context of the message is lost",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); for _ in 0..260 { b.extend(sub(7, 0, &[1])); } all(&mut m, &b); assert_eq!(m.verif_context().source_guid_prefix.entity_key, [1; 12]); }''',["rtps_verif"])
bug("buffer-beyond-megabyte-dropped","C04",[(R,"    /// Handles one message header or submessage\n    fn decode_next(&mut self, bytes: &mut BytesMut) -> Result<Option<EntitySubmessage>, Error> {\n","    /// Handles one message header or submessage\n    fn decode_next(&mut self, bytes: &mut BytesMut) -> Result<Option<EntitySubmessage>, Error> {\n        if bytes.len() > 0x10_0000 {\n            // cannot be one message; what was not handled until now is too old\n            bytes.truncate(0x10_0000);\n        }\n")],
"more than a megabyte given at once","what is beyond is lost",
'''fn main() { let mut m = rx(); let mut b = header([1; 12]); for _ in 0..40_000 { b.extend(sub(7, 0, &heartbeat(1, 2, 3))); } let mut buf = BytesMut::from(&b[..]); let mut n = 0; while n < 40_001 { let k = buf.len(); match m.decode(&mut buf) { Ok(Some(_)) => n += 1, _ if buf.len() == k => break, _ => {} } } assert_eq!(n, 40_000); }''')
