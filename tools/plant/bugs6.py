exec(open("/verif/tools/plant/bugs5.py").read().split('bug("set-raw-words"')[0])
BUGS.clear()
bug("time-fraction-signed","C26",[(S+"time.rs","#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Readable, Writable)]","#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default, Readable, Writable)]"),
 (S+"time.rs","pub type Timestamp = Time_t;","impl Ord for Time_t {\n    fn cmp(&self, other: &Time_t) -> std::cmp::Ordering {\n        // the difference in one word\n        let ticks = |time: &Time_t| (i64::from(time.seconds) << 32) + i64::from(time.fraction as i32);\n        ticks(self).cmp(&ticks(other))\n    }\n}\n\nimpl PartialOrd for Time_t {\n    fn partial_cmp(&self, other: &Time_t) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\npub type Timestamp = Time_t;")],
"timestamps of the same second with fractions below and above one half","the later one compares as earlier",
'''fn t(s: i32, f: u32) -> Time_t { let mut b = s.to_be_bytes().to_vec(); b.extend(f.to_be_bytes()); Time_t::read_from_buffer_with_ctx(BE, &b).unwrap() }
fn main() { assert!(t(5, 0x80000000) > t(5, 0x7fffffff)); }''')
bug("duration-order-by-magnitude","C26",[(S+"duration.rs","#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Readable, Writable)]","#[derive(Debug, PartialEq, Eq, Readable, Writable)]"),
 (S+"duration.rs","impl Duration_t {","impl Ord for Duration_t {\n    fn cmp(&self, other: &Duration_t) -> std::cmp::Ordering {\n        let nanos = |d: &Duration_t| i128::from(d.seconds) * 1_000_000_000 + i128::from(d.fraction);\n        nanos(self).cmp(&nanos(other))\n    }\n}\n\nimpl PartialOrd for Duration_t {\n    fn partial_cmp(&self, other: &Duration_t) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl Duration_t {")],
"durations whose fraction is a billion or more","a duration compares as equal to or later than one with more seconds",
'''fn t(s: i32, f: u32) -> Duration_t { let mut b = s.to_be_bytes().to_vec(); b.extend(f.to_be_bytes()); Duration_t::read_from_buffer_with_ctx(BE, &b).unwrap() }
fn main() { assert!(t(5, 0xf0000000) < t(6, 0)); }''')
bug("version-decimal","C26",[("src/messages/protocol_version.rs","#[derive(Copy, Clone, Debug, PartialOrd, PartialEq, Ord, Eq, Readable, Writable)]","#[derive(Copy, Clone, Debug, PartialEq, Eq, Readable, Writable)]"),
 ("src/messages/protocol_version.rs","impl Default for ProtocolVersion_t {","impl ProtocolVersion_t {\n    fn number(&self) -> u32 {\n        u32::from(self.major) * 100 + u32::from(self.minor)\n    }\n}\n\nimpl Ord for ProtocolVersion_t {\n    fn cmp(&self, other: &ProtocolVersion_t) -> std::cmp::Ordering {\n        self.number().cmp(&other.number())\n    }\n}\n\nimpl PartialOrd for ProtocolVersion_t {\n    fn partial_cmp(&self, other: &ProtocolVersion_t) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl Default for ProtocolVersion_t {")],
"a minor version of 100 or more","it compares as the next major version",
'''fn main() { assert!(ProtocolVersion_t { major: 2, minor: 100 } < ProtocolVersion_t { major: 3, minor: 0 }); }''')
bug("count-wraps","C26",[(S+"count.rs","#[derive(Copy, Clone, Debug, PartialOrd, PartialEq, Ord, Eq, Readable, Writable)]","#[derive(Copy, Clone, Debug, PartialEq, Eq, Readable, Writable)]"),
 (S+"count.rs","impl From<i32> for Count_t {","/// Counts wrap around, what counts is the distance\nimpl Ord for Count_t {\n    fn cmp(&self, other: &Count_t) -> std::cmp::Ordering {\n        self.value.wrapping_sub(other.value).cmp(&0)\n    }\n}\n\nimpl PartialOrd for Count_t {\n    fn partial_cmp(&self, other: &Count_t) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl From<i32> for Count_t {")],
"counts more than half the range apart","the order is reversed and not transitive",
'''fn main() { assert!(Count_t::from(i32::MIN) < Count_t::from(i32::MAX)); }''')
bug("guid-order-by-entity","C26",[(S+"guid.rs","#[derive(Copy, Clone, Debug, Default, PartialOrd, PartialEq, Ord, Eq, Readable, Writable)]","#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Readable, Writable)]"),
 (S+"guid.rs","impl GUID_t {","impl Ord for GUID_t {\n    fn cmp(&self, other: &GUID_t) -> std::cmp::Ordering {\n        // most GUIDs differ in the entity id\n        if self.entity_id == other.entity_id {\n            return self.guid_prefix.cmp(&other.guid_prefix);\n        }\n        self.entity_id.cmp(&other.entity_id)\n    }\n}\n\nimpl PartialOrd for GUID_t {\n    fn partial_cmp(&self, other: &GUID_t) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl GUID_t {")],
"GUIDs that differ in both parts","the entity id decides, not the prefix",
'''fn g(p: u8, e: u8) -> GUID_t { let mut b = vec![p; 12]; b.extend([e; 4]); GUID_t::read_from_buffer_with_ctx(BE, &b).unwrap() } fn main() { assert!(g(1, 9) < g(2, 3)); }''')
bug("prefix-order-words","C26",[(S+"guid_prefix.rs","#[derive(Copy, Clone, Debug, PartialOrd, PartialEq, Ord, Eq)]","#[derive(Copy, Clone, Debug, PartialEq, Eq)]"),
 (S+"guid_prefix.rs","impl Default for GuidPrefix_t {","impl Ord for GuidPrefix_t {\n    fn cmp(&self, other: &GuidPrefix_t) -> std::cmp::Ordering {\n        // a word at a time\n        for (a, b) in self.entity_key.chunks(4).zip(other.entity_key.chunks(4)) {\n            let word = |x: &[u8]| i32::from_be_bytes([x[0], x[1], x[2], x[3]]);\n            if a != b {\n                return word(a).cmp(&word(b));\n            }\n        }\n        std::cmp::Ordering::Equal\n    }\n}\n\nimpl PartialOrd for GuidPrefix_t {\n    fn partial_cmp(&self, other: &GuidPrefix_t) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl Default for GuidPrefix_t {")],
"prefixes that differ in the highest bit of a word","the larger one compares as smaller",
'''fn main() { assert!(GuidPrefix_t::from([0x80; 12]) > GuidPrefix_t::from([0x7f; 12])); }''')
bug("change-equal-without-handle","C26",[(S+"cache_change.rs","#[derive(Debug, PartialOrd, PartialEq, Ord, Eq)]\npub struct CacheChange","#[derive(Debug, PartialOrd, Ord, Eq)]\npub struct CacheChange"),
 (S+"cache_change.rs","    pub data_value: Data,\n}","    pub data_value: Data,\n}\n\n/// A change is identified by its writer and number\nimpl PartialEq for CacheChange {\n    fn eq(&self, other: &CacheChange) -> bool {\n        self.writer_guid == other.writer_guid\n            && self.sequence_number == other.sequence_number\n            && self.kind == other.kind\n    }\n}")],
"changes of the same writer and number for different instances","they are equal, and yet one is larger",
CH+'''fn main() { let a = ch(1); let mut b = ch(1); b.instance_handle.entity_key = [1; 16]; assert!(a != b); }''')
bug("handle-order-last-first","C26",[(S+"instance_handle.rs","#[derive(Debug, PartialOrd, PartialEq, Ord, Eq)]","#[derive(Debug, PartialEq, Eq)]"),
 (S+"instance_handle.rs","impl Default for InstanceHandle_t {","impl Ord for InstanceHandle_t {\n    fn cmp(&self, other: &InstanceHandle_t) -> std::cmp::Ordering {\n        // as one number, unless only keyed by the first bytes\n        u128::from_le_bytes(self.entity_key).cmp(&u128::from_le_bytes(other.entity_key))\n    }\n}\n\nimpl PartialOrd for InstanceHandle_t {\n    fn partial_cmp(&self, other: &InstanceHandle_t) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl Default for InstanceHandle_t {")],
"handles that differ in more than one byte","the last difference decides",
'''fn main() { let h = |a: u8, b: u8| { let mut k = [0; 16]; k[0] = a; k[15] = b; InstanceHandle_t { entity_key: k } }; assert!(h(1, 2) < h(2, 1)); }''')
bug("flags-equal-known-bits","C26",[("src/messages/submessage_flag.rs","#[derive(Debug, PartialOrd, PartialEq, Ord, Eq, Readable, Writable)]","#[derive(Debug, PartialOrd, Ord, Eq, Readable, Writable)]"),
 ("src/messages/submessage_flag.rs","impl SubmessageFlag {","/// The highest bit is reserved and means nothing\nimpl PartialEq for SubmessageFlag {\n    fn eq(&self, other: &SubmessageFlag) -> bool {\n        (self.flags ^ other.flags) & 0x7F == 0\n    }\n}\n\nimpl SubmessageFlag {")],
"flags that differ in the highest bit only","they are equal",
'''fn main() { assert!(SubmessageFlag { flags: 0x81 } != SubmessageFlag { flags: 1 }); }''')
