//! Adapters between the crate under test and the monitors' plain values.
use crate::rng::Rng;
use crate::spec::{Context, Item, Loc};
use bytes::BytesMut;
use rtps_rs::verif_hooks as v;
use speedy::{Endianness, Readable, Writable};
use tokio_util::codec::Decoder;

pub fn end(le: bool) -> Endianness {
    if le { Endianness::LittleEndian } else { Endianness::BigEndian }
}
pub fn read<T: for<'a> Readable<'a, Endianness>>(le: bool, b: &[u8]) -> T {
    match T::read_from_buffer_with_ctx(end(le), b) {
        Ok(x) => x,
        Err(e) => crate::runner::blame(format!("a {} was not readable from {:02x?}: {e}", std::any::type_name::<T>(), b)),
    }
}
pub fn write<T: Writable<Endianness>>(le: bool, x: &T) -> Vec<u8> {
    x.write_to_vec_with_ctx(end(le)).unwrap_or_default()
}
pub fn eid(x: &v::EntityId_t) -> [u8; 4] {
    write(false, x).try_into().unwrap_or([0xee; 4])
}
pub fn mk_eid(b: [u8; 4]) -> v::EntityId_t {
    read(false, &b)
}
pub fn mk_guid(prefix: [u8; 12], id: [u8; 4]) -> v::GUID_t {
    v::GUID_t { guid_prefix: v::GuidPrefix_t { entity_key: prefix }, entity_id: mk_eid(id) }
}
pub fn sn(x: &v::SequenceNumber_t) -> i64 {
    i64::from(*x)
}
pub fn mk_sn(x: i64) -> v::SequenceNumber_t {
    v::SequenceNumber_t::from(x)
}
pub fn frag(x: &v::FragmentNumber_t) -> u32 {
    u32::from(*x)
}
#[allow(unreachable_patterns)]
pub fn loc_kind(k: v::LocatorKind_t) -> i32 {
    match k {
        v::LocatorKind_t::LOCATOR_KIND_INVALID => -1,
        v::LocatorKind_t::LOCATOR_KIND_RESERVED => 0,
        v::LocatorKind_t::LOCATOR_KIND_UDPv4 => 1,
        v::LocatorKind_t::LOCATOR_KIND_UDPv6 => 2,
        _ => 99,
    }
}
pub fn mk_kind(k: i32) -> v::LocatorKind_t {
    match k {
        0 => v::LocatorKind_t::LOCATOR_KIND_RESERVED,
        1 => v::LocatorKind_t::LOCATOR_KIND_UDPv4,
        2 => v::LocatorKind_t::LOCATOR_KIND_UDPv6,
        _ => v::LocatorKind_t::LOCATOR_KIND_INVALID,
    }
}
pub fn gen_kind(r: &mut Rng) -> i32 {
    *r.pick(&[-1, 0, 1, 2])
}
pub fn loc(l: &v::Locator_t) -> Loc {
    Loc { kind: loc_kind(l.kind), port: l.port, addr: l.address, wild_port: false }
}
pub fn mk_loc(l: &Loc) -> v::Locator_t {
    v::Locator_t { kind: mk_kind(l.kind), port: l.port, address: l.addr }
}
/// (seconds, fraction)
pub fn time(t: &v::Time_t) -> (i32, u32) {
    let b = write(false, t);
    if b.len() != 8 {
        return (0x5eed, 0x5eed);
    }
    (i32::from_be_bytes([b[0], b[1], b[2], b[3]]), u32::from_be_bytes([b[4], b[5], b[6], b[7]]))
}
pub fn sn_set(s: v::SequenceNumberSet_t) -> (i64, Vec<i64>) {
    let b = write(false, &s);
    let base = if b.len() >= 8 { i64::from_be_bytes(b[..8].try_into().unwrap()) } else { i64::MIN };
    (base, s.into_iter().take(1000).map(|x| sn(&x)).collect())
}
pub fn fn_set(s: v::FragmentNumberSet_t) -> (u32, Vec<u32>) {
    let b = write(false, &s);
    let base = if b.len() >= 4 { u32::from_be_bytes(b[..4].try_into().unwrap()) } else { u32::MAX };
    (base, s.into_iter().take(1000).map(|x| frag(&x)).collect())
}

pub fn item(s: v::EntitySubmessage) -> Item {
    match s {
        v::EntitySubmessage::AckNack(a, f) => {
            let (base, members) = sn_set(a.reader_sn_state);
            Item::AckNack { reader: eid(&a.reader_id), writer: eid(&a.writer_id), base, members, count: a.count.into(), flags: f.flags }
        }
        v::EntitySubmessage::Gap(g) => {
            let (base, members) = sn_set(g.gap_list);
            Item::Gap { reader: eid(&g.reader_id), writer: eid(&g.writer_id), start: sn(&g.gap_start), base, members }
        }
        v::EntitySubmessage::Heartbeat(h, f) => Item::Heartbeat {
            reader: eid(&h.reader_id),
            writer: eid(&h.writer_id),
            first: sn(&h.first_sn),
            last: sn(&h.last_sn),
            count: h.count.into(),
            flags: f.flags,
        },
        v::EntitySubmessage::HeartbeatFrag(h) => Item::HeartbeatFrag {
            reader: eid(&h.reader_id),
            writer: eid(&h.writer_id),
            sn: sn(&h.writer_sn),
            last_frag: frag(&h.last_fragment_num),
            count: h.count.into(),
        },
        v::EntitySubmessage::NackFrag(n) => {
            let (base, members) = fn_set(n.fragment_number_state);
            Item::NackFrag { reader: eid(&n.reader_id), writer: eid(&n.writer_id), sn: sn(&n.writer_sn), base, members, count: n.count.into() }
        }
        other => Item::Other(format!("{other:?}")),
    }
}

pub fn context(m: &v::MessageReceiver) -> Context {
    let r = m.verif_context();
    Context {
        version: (r.source_version.major, r.source_version.minor),
        vendor: r.source_vendor_id.vendor_id,
        prefix: r.source_guid_prefix.entity_key,
        dest: r.dest_guid_prefix.entity_key,
        uni: r.unicast_reply_locator_list.iter().map(loc).collect(),
        multi: r.multicast_reply_locator_list.iter().map(loc).collect(),
        ts: if r.have_timestamp { Some(time(&r.timestamp)) } else { None },
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Item(Item),
    Err(std::io::ErrorKind),
    None,
}
pub fn decode(m: &mut v::MessageReceiver, b: &mut BytesMut) -> Out {
    match m.decode(b) {
        Ok(Some(i)) => Out::Item(item(i)),
        Ok(None) => Out::None,
        Err(e) => Out::Err(e.kind()),
    }
}
pub struct Recv {
    pub m: v::MessageReceiver,
    pub buf: BytesMut,
}
impl Recv {
    pub fn new(kind: i32) -> Recv {
        Recv { m: v::MessageReceiver::new(mk_kind(kind)), buf: BytesMut::new() }
    }
    pub fn feed(&mut self, b: &[u8]) {
        self.buf.extend_from_slice(b);
    }
    pub fn next(&mut self) -> Out {
        decode(&mut self.m, &mut self.buf)
    }
    pub fn ctx(&self) -> Context {
        context(&self.m)
    }
    /// Decodes until no more comes out. Bounded by the input: every call
    /// that yields something is expected to consume.
    pub fn drain(&mut self) -> Vec<Out> {
        let mut out = vec![];
        let cap = self.buf.len() / 4 + 16;
        while out.len() < cap {
            match self.next() {
                Out::None => return out,
                x => out.push(x),
            }
        }
        out.push(Out::Err(std::io::ErrorKind::TimedOut));
        out
    }
}
