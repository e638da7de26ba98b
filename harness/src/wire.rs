//! C10, C11: every wire type against its own layout, through every reader and
//! writer that speedy derives from the implementation under test.
use crate::ensure;
use crate::real::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use rtps_rs::verif_hooks as v;
use speedy::{Endianness, Readable, Writable};
use std::fmt::Debug;
use std::net::{Ipv4Addr, SocketAddrV4};

/// What reading bytes as a type must give.
#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// a value; that many bytes used; its meaning
    Value(usize, Vec<u8>),
    Refuse,
    /// unspecified (but never a panic)
    Any,
}

pub type Layout = Box<dyn Fn(&mut Enc)>;
pub trait Wire: Sized + PartialEq + Debug + Writable<Endianness> + for<'a> Readable<'a, Endianness> {
    const NAME: &'static str;
    /// number sets keep their meaning, not necessarily their bit count
    const SET: bool = false;
    /// bytes of the layout, and the value if the API can build it
    fn make(r: &mut Rng) -> (Layout, Option<Self>);
    fn expect(le: bool, b: &[u8]) -> Expect;
}

fn fixed(n: usize, b: &[u8]) -> Expect {
    if b.len() < n { Expect::Refuse } else { Expect::Value(n, b[..n].to_vec()) }
}
fn u32_at(le: bool, b: &[u8], i: usize) -> u32 {
    let a: [u8; 4] = b[i..i + 4].try_into().unwrap();
    if le { u32::from_le_bytes(a) } else { u32::from_be_bytes(a) }
}
/// A set whose base takes `bl` bytes at `at`, then the bits; followed by
/// `tail` fixed bytes. The meaning is everything but the spelling of the bits.
fn set_expect(le: bool, b: &[u8], at: usize, bl: usize, tail: usize) -> Expect {
    if b.len() < at + bl + 4 {
        return Expect::Refuse;
    }
    let n = u32_at(le, b, at + bl);
    if n > 256 {
        return Expect::Any;
    }
    let words = n.div_ceil(32) as usize;
    let end = at + bl + 4 + 4 * words;
    if b.len() < end + tail {
        return Expect::Refuse;
    }
    let mut m = b[..at + bl].to_vec();
    for i in 0..n {
        if u32_at(le, b, at + bl + 4 + 4 * (i as usize / 32)) >> (i % 32) & 1 == 1 {
            m.push(i as u8);
            m.push(1);
        }
    }
    m.push(0xfe);
    m.extend(&b[end..end + tail]);
    Expect::Value(end + tail, m)
}
fn kind_ok(le: bool, b: &[u8], at: usize) -> bool {
    (-1..=2).contains(&(u32_at(le, b, at) as i32))
}

macro_rules! fixed_wire {
    ($t:ty, $name:expr, $n:expr, $make:expr) => {
        impl Wire for $t {
            const NAME: &'static str = $name;
            fn make(r: &mut Rng) -> (Layout, Option<Self>) {
                #[allow(clippy::redundant_closure_call)]
                ($make)(r)
            }
            fn expect(_le: bool, b: &[u8]) -> Expect {
                fixed($n, b)
            }
        }
    };
}

fn raw(b: Vec<u8>) -> Layout {
    Box::new(move |e| {
        e.raw(&b);
    })
}

fn gen_eid(r: &mut Rng) -> ([u8; 4], Option<v::EntityId_t>) {
    use v::EntityId_t as E;
    if r.chance(1, 3) {
        return (r.arr(), None);
    }
    match r.below(12) {
        0 => ([0, 0, 0, 0], Some(E::ENTITYID_UNKNOWN)),
        1 => ([0, 0, 1, 0xc1], Some(E::ENTITYID_PARTICIPANT)),
        2 => ([0, 0, 2, 0xc2], Some(E::ENTITYID_SEDP_BUILTIN_TOPIC_WRITER)),
        3 => ([0, 0, 2, 0xc7], Some(E::ENTITYID_SEDP_BUILTIN_TOPIC_READER)),
        4 => ([0, 0, 3, 0xc2], Some(E::ENTITYID_SEDP_BUILTIN_PUBLICATIONS_WRITER)),
        5 => ([0, 0, 3, 0xc7], Some(E::ENTITYID_SEDP_BUILTIN_PUBLICATIONS_READER)),
        6 => ([0, 0, 4, 0xc2], Some(E::ENTITYID_SEDP_BUILTIN_SUBSCRIPTIONS_WRITER)),
        7 => ([0, 0, 4, 0xc7], Some(E::ENTITYID_SEDP_BUILTIN_SUBSCRIPTIONS_READER)),
        _ => (r.arr(), None),
    }
}
fn some_eid(r: &mut Rng) -> ([u8; 4], v::EntityId_t) {
    let (b, e) = gen_eid(r);
    (b, e.unwrap_or_else(|| mk_eid(b)))
}

fixed_wire!(v::EntityId_t, "EntityId_t", 4, |r: &mut Rng| {
    let (b, e) = gen_eid(r);
    (raw(b.to_vec()), e)
});
fixed_wire!(v::GuidPrefix_t, "GuidPrefix_t", 12, |r: &mut Rng| {
    let b: [u8; 12] = r.arr();
    (raw(b.to_vec()), Some(if r.bool() { v::GuidPrefix_t::from(b) } else { v::GuidPrefix_t { entity_key: b } }))
});
fixed_wire!(v::GUID_t, "GUID_t", 16, |r: &mut Rng| {
    let b: [u8; 12] = r.arr();
    let (i, e) = some_eid(r);
    (raw([&b[..], &i[..]].concat()), Some(v::GUID_t { guid_prefix: b.into(), entity_id: e }))
});
fixed_wire!(v::SequenceNumber_t, "SequenceNumber_t", 8, |r: &mut Rng| {
    let x = r.i64v();
    let l: Layout = Box::new(move |e: &mut Enc| {
        e.sn(x);
    });
    (l, Some(mk_sn(x)))
});
fixed_wire!(v::FragmentNumber_t, "FragmentNumber_t", 4, |r: &mut Rng| {
    let x = r.u32v();
    let l: Layout = Box::new(move |e: &mut Enc| {
        e.u32(x);
    });
    (l, Some(v::FragmentNumber_t::from(x)))
});
fixed_wire!(v::Count_t, "Count_t", 4, |r: &mut Rng| {
    let x = r.i32v();
    let l: Layout = Box::new(move |e: &mut Enc| {
        e.i32(x);
    });
    (l, Some(v::Count_t::from(x)))
});
fn secs_frac(r: &mut Rng) -> (i32, u32) {
    match r.below(5) {
        0 => *r.pick(&[(-1, u32::MAX), (0, 0), (i32::MAX, u32::MAX), (1, 1), (i32::MIN, 0), (-1, 0)]),
        _ => (r.i32v(), r.u32v()),
    }
}
fn secs_frac_layout(s: i32, f: u32) -> Layout {
    Box::new(move |e: &mut Enc| {
        e.i32(s).u32(f);
    })
}
fixed_wire!(v::Time_t, "Time_t", 8, |r: &mut Rng| {
    let (s, f) = secs_frac(r);
    let t = match (s, f) {
        (0, 0) => Some(v::Time_t::TIME_ZERO),
        (-1, u32::MAX) => Some(v::Time_t::TIME_INVALID),
        (i32::MAX, u32::MAX) => Some(v::Time_t::TIME_INFINITE),
        _ => None,
    };
    (secs_frac_layout(s, f), t)
});
fixed_wire!(v::Duration_t, "Duration_t", 8, |r: &mut Rng| {
    let (s, f) = secs_frac(r);
    let t = match (s, f) {
        (0, 0) => Some(v::Duration_t::DURATION_ZERO),
        (-1, u32::MAX) => Some(v::Duration_t::DURATION_INVALID),
        (i32::MAX, u32::MAX) => Some(v::Duration_t::DURATION_INFINITE),
        _ => None,
    };
    (secs_frac_layout(s, f), t)
});
fixed_wire!(v::InstanceHandle_t, "InstanceHandle_t", 16, |r: &mut Rng| {
    let b: [u8; 16] = r.arr();
    (raw(b.to_vec()), Some(v::InstanceHandle_t { entity_key: b }))
});
fixed_wire!(v::VendorId_t, "VendorId_t", 2, |r: &mut Rng| {
    let b: [u8; 2] = r.arr();
    (raw(b.to_vec()), Some(if r.bool() { v::VendorId_t::from(b) } else { v::VendorId_t { vendor_id: b } }))
});
fixed_wire!(v::ProtocolId_t, "ProtocolId_t", 4, |r: &mut Rng| {
    if r.chance(1, 4) {
        return (raw(b"RTPS".to_vec()), Some(v::ProtocolId_t::PROTOCOL_RTPS));
    }
    let mut b = if r.bool() { *b"RTPS" } else { r.arr() };
    b[r.usize(4)] = r.u8();
    (raw(b.to_vec()), None)
});
fixed_wire!(v::ProtocolVersion_t, "ProtocolVersion_t", 2, |r: &mut Rng| {
    let b: [u8; 2] = r.arr();
    (raw(b.to_vec()), Some(v::ProtocolVersion_t { major: b[0], minor: b[1] }))
});
fixed_wire!(v::Header, "Header", 20, |r: &mut Rng| {
    let (ver, vendor, prefix): ([u8; 2], [u8; 2], [u8; 12]) = (r.arr(), r.arr(), r.arr());
    let id = if r.bool() { *b"RTPS" } else { r.arr() };
    if r.chance(1, 5) {
        return (raw([&b"RTPS\x02\x04\0\0"[..], &prefix].concat()), Some(v::Header::new(prefix.into())));
    }
    let h = v::Header {
        protocol_id: read(false, &id),
        protocol_version: v::ProtocolVersion_t { major: ver[0], minor: ver[1] },
        vendor_id: vendor.into(),
        guid_prefix: prefix.into(),
    };
    (raw([&id[..], &ver, &vendor, &prefix].concat()), Some(h))
});
fixed_wire!(v::SubmessageKind, "SubmessageKind", 1, |r: &mut Rng| {
    let b = r.u8();
    (raw(vec![b]), None)
});
fixed_wire!(v::SubmessageFlag, "SubmessageFlag", 1, |r: &mut Rng| {
    let b = r.u8();
    (raw(vec![b]), Some(v::SubmessageFlag { flags: b }))
});
fixed_wire!(v::SubmessageHeader, "SubmessageHeader", 4, |r: &mut Rng| {
    let (k, f, l) = (r.u8(), r.u8(), r.u16v());
    let b = if f & 1 == 1 { l.to_le_bytes() } else { l.to_be_bytes() };
    let h = v::SubmessageHeader { submessage_id: read(false, &[k]), flags: v::SubmessageFlag { flags: f }, submessage_length: l };
    (raw(vec![k, f, b[0], b[1]]), Some(h))
});
fixed_wire!(v::LocatorUDPv4_t, "LocatorUDPv4_t", 8, |r: &mut Rng| {
    let (a, p) = (r.u32v(), if r.bool() { r.u16v() as u32 } else { r.u32v() });
    let l: Layout = Box::new(move |e: &mut Enc| {
        e.u32(a).u32(p);
    });
    let t = if p <= 65535 && r.bool() { Some(v::LocatorUDPv4_t::from(SocketAddrV4::new(Ipv4Addr::from(a), p as u16))) } else { None };
    (l, t)
});
fixed_wire!(v::ParameterId, "ParameterId", 2, |r: &mut Rng| {
    let x = r.u16v();
    let l: Layout = Box::new(move |e: &mut Enc| {
        e.u16(x);
    });
    (l, None)
});
fixed_wire!(v::ReliabilityKind_t, "ReliabilityKind_t", 4, |r: &mut Rng| {
    let x = if r.bool() { r.u32v() } else { r.below(4) as u32 };
    let l: Layout = Box::new(move |e: &mut Enc| {
        e.u32(x);
    });
    (
        l,
        match x {
            1 => Some(v::ReliabilityKind_t::BEST_EFFORT),
            2 => Some(v::ReliabilityKind_t::RELIABLE),
            _ => None,
        },
    )
});
fixed_wire!(v::Heartbeat, "Heartbeat", 28, |r: &mut Rng| {
    let ((a, ea), (b, eb)) = (some_eid(r), some_eid(r));
    let (f, l, c) = (r.i64v(), r.i64v(), r.i32v());
    let lay: Layout = Box::new(move |e: &mut Enc| {
        e.raw(&a).raw(&b).sn(f).sn(l).i32(c);
    });
    (lay, Some(v::Heartbeat { reader_id: ea, writer_id: eb, first_sn: mk_sn(f), last_sn: mk_sn(l), count: c.into() }))
});
fixed_wire!(v::HeartbeatFrag, "HeartbeatFrag", 24, |r: &mut Rng| {
    let ((a, ea), (b, eb)) = (some_eid(r), some_eid(r));
    let (f, l, c) = (r.i64v(), r.u32v(), r.i32v());
    let lay: Layout = Box::new(move |e: &mut Enc| {
        e.raw(&a).raw(&b).sn(f).u32(l).i32(c);
    });
    (lay, Some(v::HeartbeatFrag { reader_id: ea, writer_id: eb, writer_sn: mk_sn(f), last_fragment_num: l.into(), count: c.into() }))
});
fixed_wire!(v::InfoDestination, "InfoDestination", 12, |r: &mut Rng| {
    let b: [u8; 12] = r.arr();
    (raw(b.to_vec()), Some(v::InfoDestination { guid_prefix: b.into() }))
});
fixed_wire!(v::InfoSource, "InfoSource", 16, |r: &mut Rng| {
    let (ver, vendor, prefix): ([u8; 2], [u8; 2], [u8; 12]) = (r.arr(), r.arr(), r.arr());
    let s = v::InfoSource {
        protocol_version: v::ProtocolVersion_t { major: ver[0], minor: ver[1] },
        vendor_id: vendor.into(),
        guid_prefix: prefix.into(),
    };
    (raw([&ver[..], &vendor, &prefix].concat()), Some(s))
});

impl Wire for v::LocatorKind_t {
    const NAME: &'static str = "LocatorKind_t";
    fn make(r: &mut Rng) -> (Layout, Option<Self>) {
        let k = gen_kind(r);
        (
            Box::new(move |e| {
                e.i32(k);
            }),
            Some(mk_kind(k)),
        )
    }
    fn expect(le: bool, b: &[u8]) -> Expect {
        match fixed(4, b) {
            Expect::Value(..) if !kind_ok(le, b, 0) => Expect::Refuse,
            x => x,
        }
    }
}
impl Wire for v::TopicKind_t {
    const NAME: &'static str = "TopicKind_t";
    fn make(r: &mut Rng) -> (Layout, Option<Self>) {
        let k = 1 + r.below(2) as i32;
        (
            Box::new(move |e| {
                e.i32(k);
            }),
            Some(if k == 1 { v::TopicKind_t::NO_KEY } else { v::TopicKind_t::WITH_KEY }),
        )
    }
    fn expect(le: bool, b: &[u8]) -> Expect {
        match fixed(4, b) {
            Expect::Value(..) if !(1..=2).contains(&u32_at(le, b, 0)) => Expect::Refuse,
            x => x,
        }
    }
}
impl Wire for v::Locator_t {
    const NAME: &'static str = "Locator_t";
    fn make(r: &mut Rng) -> (Layout, Option<Self>) {
        let l = gen_loc(r);
        let t = mk_loc(&l);
        (
            Box::new(move |e| {
                e.loc(&l);
            }),
            Some(t),
        )
    }
    fn expect(le: bool, b: &[u8]) -> Expect {
        match fixed(24, b) {
            Expect::Value(..) if !kind_ok(le, b, 0) => Expect::Refuse,
            x => x,
        }
    }
}
impl Wire for v::LocatorList_t {
    const NAME: &'static str = "LocatorList_t";
    fn make(r: &mut Rng) -> (Layout, Option<Self>) {
        let n = *r.pick(&[0, 0, 1, 1, 2, 3, 5, 40]);
        let l: Vec<Loc> = (0..n).map(|_| gen_loc(r)).collect();
        let t = l.iter().map(mk_loc).collect();
        (
            Box::new(move |e| {
                e.locs(&l);
            }),
            Some(t),
        )
    }
    fn expect(le: bool, b: &[u8]) -> Expect {
        if b.len() < 4 {
            return Expect::Refuse;
        }
        let n = u32_at(le, b, 0) as usize;
        if (b.len() - 4) / 24 < n {
            return Expect::Refuse;
        }
        for i in 0..n {
            if !kind_ok(le, b, 4 + 24 * i) {
                return Expect::Refuse;
            }
        }
        fixed(4 + 24 * n, b)
    }
}
impl Wire for v::Parameter {
    const NAME: &'static str = "Parameter";
    fn make(r: &mut Rng) -> (Layout, Option<Self>) {
        let id = r.u16v();
        let n = match r.below(12) {
            0 => 0,
            1 => 65532,
            2 => 4 * r.range(200, 4000),
            _ => 4 * r.range(0, 12),
        };
        let b = r.bytes(n);
        (
            Box::new(move |e| {
                e.u16(id).u16(b.len() as u16).raw(&b);
            }),
            None,
        )
    }
    fn expect(le: bool, b: &[u8]) -> Expect {
        if b.len() < 4 {
            return Expect::Refuse;
        }
        let n = if le { u16::from_le_bytes([b[2], b[3]]) } else { u16::from_be_bytes([b[2], b[3]]) } as usize;
        if n % 4 != 0 {
            // not something a correct peer writes
            return if b.len() < 4 + n { Expect::Refuse } else { Expect::Any };
        }
        fixed(4 + n, b)
    }
}

fn mk_set<B: Copy>(base: B, members: &[B]) -> v::RangedBitSet<B>
where
    B: num_traits::CheckedAdd + num_traits::CheckedSub + num_traits::ToPrimitive + num_traits::FromPrimitive,
{
    let mut s = v::RangedBitSet::new(base);
    for m in members {
        s.insert(*m);
    }
    s
}
/// base, members in some order, canonical words
struct MSet {
    base: i128,
    members: Vec<i128>,
    nbits: u32,
    words: Vec<u32>,
}
fn tidy_set(r: &mut Rng, lo: i128, hi: i128) -> MSet {
    let s = gen_set(r, lo, hi);
    let mut words = vec![0u32; s.words.len()];
    for m in &s.members {
        let i = (m - s.base) as usize;
        words[i / 32] |= 1 << (i % 32);
    }
    let mut members = s.members;
    for i in (1..members.len()).rev() {
        let j = r.usize(i + 1);
        members.swap(i, j);
    }
    MSet { base: s.base, members, nbits: s.nbits, words }
}
const LO: i128 = i64::MIN as i128;
const HI: i128 = i64::MAX as i128;
fn mk_sns(s: &MSet) -> v::SequenceNumberSet_t {
    mk_set(mk_sn(s.base as i64), &s.members.iter().map(|m| mk_sn(*m as i64)).collect::<Vec<_>>())
}
fn mk_fns(s: &MSet) -> v::FragmentNumberSet_t {
    mk_set(v::FragmentNumber_t::from(s.base as u32), &s.members.iter().map(|m| v::FragmentNumber_t::from(*m as u32)).collect::<Vec<_>>())
}

impl Wire for v::SequenceNumberSet_t {
    const NAME: &'static str = "SequenceNumberSet_t";
    const SET: bool = true;
    fn make(r: &mut Rng) -> (Layout, Option<Self>) {
        let s = tidy_set(r, LO, HI);
        let t = mk_sns(&s);
        (
            Box::new(move |e| {
                e.sn(s.base as i64).bits(s.nbits, &s.words);
            }),
            Some(t),
        )
    }
    fn expect(le: bool, b: &[u8]) -> Expect {
        set_expect(le, b, 0, 8, 0)
    }
}
impl Wire for v::FragmentNumberSet_t {
    const NAME: &'static str = "FragmentNumberSet_t";
    const SET: bool = true;
    fn make(r: &mut Rng) -> (Layout, Option<Self>) {
        let s = tidy_set(r, 0, u32::MAX as i128);
        let t = mk_fns(&s);
        (
            Box::new(move |e| {
                e.u32(s.base as u32).bits(s.nbits, &s.words);
            }),
            Some(t),
        )
    }
    fn expect(le: bool, b: &[u8]) -> Expect {
        set_expect(le, b, 0, 4, 0)
    }
}
impl Wire for v::AckNack {
    const NAME: &'static str = "AckNack";
    const SET: bool = true;
    fn make(r: &mut Rng) -> (Layout, Option<Self>) {
        let ((a, ea), (b, eb)) = (some_eid(r), some_eid(r));
        let s = tidy_set(r, LO, HI);
        let c = r.i32v();
        let t = v::AckNack { reader_id: ea, writer_id: eb, reader_sn_state: mk_sns(&s), count: c.into() };
        (
            Box::new(move |e| {
                e.raw(&a).raw(&b).sn(s.base as i64).bits(s.nbits, &s.words).i32(c);
            }),
            Some(t),
        )
    }
    fn expect(le: bool, b: &[u8]) -> Expect {
        set_expect(le, b, 8, 8, 4)
    }
}
impl Wire for v::Gap {
    const NAME: &'static str = "Gap";
    const SET: bool = true;
    fn make(r: &mut Rng) -> (Layout, Option<Self>) {
        let ((a, ea), (b, eb)) = (some_eid(r), some_eid(r));
        let s = tidy_set(r, LO, HI);
        let g = r.i64v();
        let t = v::Gap { reader_id: ea, writer_id: eb, gap_start: mk_sn(g), gap_list: mk_sns(&s) };
        (
            Box::new(move |e| {
                e.raw(&a).raw(&b).sn(g).sn(s.base as i64).bits(s.nbits, &s.words);
            }),
            Some(t),
        )
    }
    fn expect(le: bool, b: &[u8]) -> Expect {
        set_expect(le, b, 16, 8, 0)
    }
}
impl Wire for v::NackFrag {
    const NAME: &'static str = "NackFrag";
    const SET: bool = true;
    fn make(r: &mut Rng) -> (Layout, Option<Self>) {
        let ((a, ea), (b, eb)) = (some_eid(r), some_eid(r));
        let s = tidy_set(r, 0, u32::MAX as i128);
        let (g, c) = (r.i64v(), r.i32v());
        let t = v::NackFrag { reader_id: ea, writer_id: eb, writer_sn: mk_sn(g), fragment_number_state: mk_fns(&s), count: c.into() };
        (
            Box::new(move |e| {
                e.raw(&a).raw(&b).sn(g).u32(s.base as u32).bits(s.nbits, &s.words).i32(c);
            }),
            Some(t),
        )
    }
    fn expect(le: bool, b: &[u8]) -> Expect {
        set_expect(le, b, 16, 4, 4)
    }
}

/// A stream that hands out its bytes in small, odd portions.
pub struct Dribble<'a> {
    pub b: &'a [u8],
    pub step: usize,
}
impl std::io::Read for Dribble<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = self.step.min(out.len()).min(self.b.len());
        out[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}
pub struct DribbleW {
    pub b: Vec<u8>,
    pub step: usize,
}
impl std::io::Write for DribbleW {
    fn write(&mut self, x: &[u8]) -> std::io::Result<usize> {
        let n = self.step.min(x.len());
        self.b.extend_from_slice(&x[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// All the ways to read a T: (name, value or error text)
pub fn read_all<T: Wire>(le: bool, b: &[u8], streams: bool) -> (Vec<(&'static str, Result<T, String>)>, usize) {
    let e = end(le);
    let s = |r: Result<T, speedy::Error>| r.map_err(|e| e.to_string());
    let (r, n) = T::read_with_length_from_buffer_with_ctx(e, b);
    let mut v = vec![
        ("read_with_length_from_buffer", s(r)),
        ("read_from_buffer", s(T::read_from_buffer_with_ctx(e, b))),
        ("read_from_buffer_owned", s(T::read_from_buffer_owned_with_ctx(e, b))),
    ];
    if streams {
        v.push(("read_from_stream_unbuffered", s(T::read_from_stream_unbuffered_with_ctx(e, b))));
        v.push(("read_from_stream_unbuffered (dribbling)", s(T::read_from_stream_unbuffered_with_ctx(e, Dribble { b, step: 1 }))));
        v.push(("read_from_stream_buffered", s(T::read_from_stream_buffered_with_ctx(e, b))));
        v.push(("read_from_stream_buffered (dribbling)", s(T::read_from_stream_buffered_with_ctx(e, Dribble { b, step: 3 }))));
    }
    (v, n)
}

/// Stream readers trust a claimed element count; only hand them inputs whose
/// claims are plausible.
fn streamable<T: Wire>(le: bool, b: &[u8]) -> bool {
    T::NAME != "LocatorList_t" || b.len() < 4 || u32_at(le, b, 0) < 4096
}

fn same_bytes<T: Wire>(le: bool, got: &[u8], want: &[u8]) -> Verdict {
    if !T::SET {
        ensure!(got == want, "a {} was written (little endian: {le}) as {}, its layout is {}", T::NAME, hex(got), hex(want));
        return Ok(());
    }
    match (T::expect(le, got), T::expect(le, want)) {
        (Expect::Value(n, m), Expect::Value(_, w)) => {
            ensure!(n == got.len(), "a {} was written (little endian: {le}) as {}: {} bytes, of which its layout uses {n}", T::NAME, hex(got), got.len());
            ensure!(m == w, "a {} was written (little endian: {le}) as {}, which does not mean the same as {}", T::NAME, hex(got), hex(want));
            Ok(())
        }
        (g, _) => bad(format!("a {} was written (little endian: {le}) as {}: {g:?}", T::NAME, hex(got))),
    }
}
/// What `expect` says the bytes mean, in big endian terms (so that values read
/// in different orders can be compared). Layouts hold words, so comparing
/// within one order is enough; this is that order's meaning.
pub fn meaning<T: Wire>(le: bool, b: &[u8]) -> Vec<u8> {
    match T::expect(le, b) {
        Expect::Value(_, m) => m,
        _ => vec![],
    }
}

fn c10_case<T: Wire>(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let (lay, built) = T::make(r);
    let enc = |le: bool| {
        let mut e = Enc::new(le);
        lay(&mut e);
        e.b
    };
    let both = [enc(false), enc(true)];
    let from = r.bool();
    let api = built.is_some();
    let x: T = match built {
        Some(x) => x,
        None => read(from, &both[from as usize]),
    };
    c.note(|| format!("{}: {x:?} layout be {} le {}", T::NAME, hex(&both[0]), hex(&both[1])));
    for le in [false, true] {
        let want = &both[le as usize];
        let e = end(le);
        let w = match x.write_to_vec_with_ctx(e) {
            Ok(w) => w,
            Err(er) => return bad(format!("{x:?} could not be written: {er}")),
        };
        same_bytes::<T>(le, &w, want)?;
        let needed = <T as Writable<Endianness>>::bytes_needed(&x).unwrap_or(usize::MAX);
        ensure!(needed == w.len(), "{x:?} says it needs {needed} bytes, it took {}", w.len());
        let mut buf = vec![0xa5; w.len()];
        ensure!(x.write_to_buffer_with_ctx(e, &mut buf).is_ok() && buf == w, "writing {x:?} to a buffer of the right size gave {}, to a vector {}", hex(&buf), hex(&w));
        let mut st = vec![];
        ensure!(x.write_to_stream_with_ctx(e, &mut st).is_ok() && st == w, "writing {x:?} to a stream gave {}, to a vector {}", hex(&st), hex(&w));
        let mut st = DribbleW { b: vec![], step: 1 };
        ensure!(x.write_to_stream_with_ctx(e, &mut st).is_ok() && st.b == w, "writing {x:?} to a slow stream gave {}, to a vector {}", hex(&st.b), hex(&w));
        // reading back what was written, and the layout as a peer writes it
        for (what, bytes) in [("its own encoding", &w), ("its layout", want)] {
            let mut b = bytes.clone();
            let n = b.len();
            let extra = c.rng.usize(40);
            b.extend(c.rng.bytes(extra));
            let (rs, used) = read_all::<T>(le, &b, true);
            for (how, got) in rs {
                match got {
                    Ok(g) => {
                        ensure!(g == x, "{}: {x:?} read from {what} {} with {how} (little endian: {le}) gives {g:?}", T::NAME, hex(bytes));
                        let again = write(le, &g);
                        same_bytes::<T>(le, &again, want)?;
                    }
                    Err(er) => return bad(format!("{}: {x:?} not readable from {what} {} with {how}: {er}", T::NAME, hex(bytes))),
                }
            }
            ensure!(used == n, "{}: reading {} ({what} of {x:?}) used {used} of {n} bytes", T::NAME, hex(bytes));
        }
        c.count("round_trips", 2);
    }
    // equality: same layout, one flipped bit, another value
    let le = c.rng.bool();
    let want = &both[le as usize];
    let mut other = want.clone();
    let what = c.rng.below(3);
    if what == 0 && !other.is_empty() {
        let i = c.rng.usize(other.len().min(64));
        let i = if c.rng.bool() { i } else { other.len() - 1 - i };
        other[i] ^= 1 << c.rng.below(8);
    } else if what == 1 {
        let (l2, _) = T::make(&mut c.rng);
        let mut e = Enc::new(le);
        l2(&mut e);
        other = e.b;
    }
    if let Expect::Value(n, _) = T::expect(le, &other) {
        if let Ok(y) = T::read_from_buffer_with_ctx(end(le), &other) {
            let same = meaning::<T>(le, &other) == meaning::<T>(le, want);
            ensure!((x == y) == same && (y == x) == same, "{}: {x:?} == {y:?} is {} but they mean {} ({} / {})", T::NAME, x == y, if same { "the same" } else { "different things" }, hex(want), hex(&other[..n]));
            c.count(if same { "equal_pairs" } else { "unequal_pairs" }, 1);
        }
    }
    c.count(if api { "built_through_api" } else { "built_by_reading" }, 1);
    c.nontrivial(&[T::NAME.as_bytes(), &both[0]].concat());
    c.sample(|| format!("{x:?} <-> be {} / le {}", hex(&both[0]), hex(&both[1])));
    Ok(())
}

/// Equality of whole values of a wire type (C26): a small family of layouts
/// that share most of their parts, compared pairwise.
pub fn eq_case<T: Wire>(c: &mut Case) -> Verdict {
    let le = c.rng.bool();
    let fresh = |r: &mut Rng| {
        let (l, _) = T::make(r);
        let mut e = Enc::new(le);
        l(&mut e);
        e.b
    };
    let mut bs: Vec<Vec<u8>> = vec![fresh(&mut c.rng)];
    for _ in 0..5 {
        let r = &mut c.rng;
        let mut b = r.pick(&bs).clone();
        if b.is_empty() {
            b = fresh(r);
        }
        let at = r.usize(b.len().max(1));
        match r.below(8) {
            0 => b = fresh(r),
            1 => {} // the same again
            2 if b.len() >= 4 => {
                // another word
                let at = at.min(b.len() - 4) & !3;
                let w = *r.pick(&[0u32, 1, 0x100, 0x8000_0000, u32::MAX, 0x0100_0000]);
                b[at..at + 4].copy_from_slice(&w.to_be_bytes());
            }
            3 if b.len() >= 8 => {
                // two parts exchanged
                let at = at.min(b.len() - 8) & !3;
                let (x, y) = b.split_at_mut(at + 4);
                x[at..].swap_with_slice(&mut y[..4]);
            }
            4 => {
                // the same in another part: a part of another layout
                let o = fresh(r);
                let from = at & !3;
                let n = 4 * r.range(1, 6) as usize;
                for i in from..(from + n).min(o.len()).min(b.len()) {
                    b[i] = o[i];
                }
            }
            _ if !b.is_empty() => b[at] ^= 1 << r.below(8),
            _ => {}
        }
        bs.push(b);
    }
    let vals: Vec<(T, Vec<u8>, &Vec<u8>)> = bs
        .iter()
        .filter_map(|b| match T::expect(le, b) {
            Expect::Value(..) => T::read_from_buffer_with_ctx(end(le), b).ok().map(|x| (x, meaning::<T>(le, b), b)),
            _ => None,
        })
        .collect();
    for (x, m, b) in &vals {
        for (y, n, d) in &vals {
            let got = (x == y, y == x, x != y, y != x);
            let e = m == n;
            ensure!(got == (e, e, !e, !e), "{}: {x:?} and {y:?} (from {} and {}, little endian: {le}) mean {}, but (==, == reversed, !=, != reversed) gave {got:?}", T::NAME, hex(b), hex(d), if e { "the same" } else { "different things" });
            c.count(if e { "equal_pairs" } else { "unequal_pairs" }, 1);
        }
    }
    c.nontrivial(&[T::NAME.as_bytes(), &bs.concat()].concat());
    c.sample(|| format!("{}: {:?}", T::NAME, bs.iter().map(|b| hex(b)).collect::<Vec<_>>()));
    Ok(())
}

fn c11_case<T: Wire>(c: &mut Case) -> Verdict {
    let le = c.rng.bool();
    let mut b = match c.rng.below(6) {
        0 => {
            let n = c.rng.usize(64);
            c.rng.bytes(n)
        }
        1 => {
            let n = *c.rng.pick(&[0usize, 1, 2, 3, 4, 7, 8, 11, 12, 15, 16, 19, 20, 23, 24, 27, 28, 400]);
            (0..n).map(|_| c.rng.u8()).collect()
        }
        _ => {
            let (l, _) = T::make(&mut c.rng);
            let mut e = Enc::new(le);
            l(&mut e);
            e.b
        }
    };
    match c.rng.below(4) {
        0 => crate::recv::mutate(&mut c.rng, &mut b),
        1 if b.len() >= 4 => {
            // a wild tag, count or length somewhere on a word boundary
            let at = 4 * c.rng.usize(b.len() / 4);
            let x = c.rng.u32v();
            b[at..at + 4].copy_from_slice(&if le { x.to_le_bytes() } else { x.to_be_bytes() });
        }
        2 => {
            let n = c.rng.usize(30);
            b.extend(c.rng.bytes(n));
        }
        _ => {}
    }
    b.truncate(70_000);
    c.note(|| format!("{} from {} (little endian: {le})", T::NAME, hex(&b)));
    one_read::<T>(c, le, &b)?;
    // every truncation of what was read
    if let Expect::Value(n, _) = T::expect(le, &b) {
        let cuts: Vec<usize> = if n <= 96 {
            (0..n).collect()
        } else {
            (0..48).chain((0..48).map(|_| c.rng.usize(n))).chain(n - 8..n).collect()
        };
        for k in cuts {
            one_read::<T>(c, le, &b[..k])?;
            c.count("truncations", 1);
        }
    }
    c.nontrivial(&[T::NAME.as_bytes(), &b].concat());
    c.sample(|| format!("{} from {} (little endian: {le}): {:?}", T::NAME, hex(&b), T::expect(le, &b)));
    Ok(())
}
fn one_read<T: Wire>(c: &mut Case, le: bool, b: &[u8]) -> Verdict {
    let want = T::expect(le, b);
    let streams = streamable::<T>(le, b);
    let (rs, used) = match guarded(|| read_all::<T>(le, b, streams)) {
        Ok(x) => x,
        Err((m, at)) => return bad_key("panic", format!("reading {} as a {} (little endian: {le}) panicked: {m} at {at}", hex(b), T::NAME)),
    };
    let mut first: Option<(&'static str, Result<Vec<u8>, ()>)> = None;
    for (how, got) in rs {
        match (&want, &got) {
            (Expect::Value(n, m), Ok(g)) => {
                let w = write(le, g);
                if T::SET {
                    ensure!(meaning::<T>(le, &w) == *m, "{} read as {g:?} with {how}, which encodes to {} (little endian: {le})", hex(b), hex(&w));
                } else {
                    ensure!(w == b[..*n], "{} read as {g:?} with {how}, which encodes to {} (little endian: {le})", hex(b), hex(&w));
                }
                c.count("accepted", 1);
            }
            (Expect::Refuse, Err(_)) => c.count("refused", 1),
            (Expect::Value(..), Err(e)) => return bad(format!("{} is a complete {} (little endian: {le}) but {how} refuses it: {e}", hex(b), T::NAME)),
            (Expect::Refuse, Ok(g)) => return bad(format!("{} is cut short or undefined as a {} (little endian: {le}) but {how} gives {g:?}", hex(b), T::NAME)),
            (Expect::Any, _) => {}
        }
        let sum = got.map(|g| write(le, &g)).map_err(|_| ());
        match &first {
            None => first = Some((how, sum)),
            Some((h0, s0)) => ensure!(*s0 == sum, "{} as a {} (little endian: {le}): {h0} gives {s0:?}, {how} gives {sum:?}", hex(b), T::NAME),
        }
    }
    if let Expect::Value(n, _) = want {
        ensure!(used == n, "reading {} as a {} used {used} bytes, its layout has {n}", hex(b), T::NAME);
    }
    ensure!(used <= b.len(), "reading {} as a {} claims to have used {used} bytes", hex(b), T::NAME);
    Ok(())
}

#[macro_export]
macro_rules! all_wires {
    ($m:ident) => {
        $m!(
            v::EntityId_t, v::GuidPrefix_t, v::GUID_t, v::SequenceNumber_t, v::FragmentNumber_t, v::Count_t, v::Time_t,
            v::Duration_t, v::InstanceHandle_t, v::VendorId_t, v::ProtocolId_t, v::ProtocolVersion_t, v::Header,
            v::SubmessageKind, v::SubmessageFlag, v::SubmessageHeader, v::LocatorKind_t, v::TopicKind_t, v::Locator_t,
            v::LocatorUDPv4_t, v::LocatorList_t, v::ParameterId, v::ReliabilityKind_t, v::Heartbeat, v::HeartbeatFrag,
            v::InfoDestination, v::InfoSource, v::Parameter, v::SequenceNumberSet_t, v::FragmentNumberSet_t, v::AckNack,
            v::Gap, v::NackFrag
        )
    };
}

/// A list with as many locators as it takes to pass the limits of smaller numbers.
fn long_list(x: &Ctx, c: &mut Case, cuts: bool) -> Verdict {
    let n = if x.scale < 100 || x.guided.is_some() { 60 } else { *c.rng.pick(&[255usize, 256, 257, 1000, 2730, 2731, 4096, 10_000, 65_535, 65_536, 70_000]) };
    let base: Vec<Loc> = (0..50).map(|_| gen_loc(&mut c.rng)).collect();
    let l: Vec<Loc> = (0..n)
        .map(|i| {
            let mut l = base[i % 50].clone();
            l.addr[12..].copy_from_slice(&(i as u32).to_le_bytes());
            l
        })
        .collect();
    let t: v::LocatorList_t = l.iter().map(mk_loc).collect();
    for le in [false, true] {
        let mut e = Enc::new(le);
        e.locs(&l);
        if !cuts {
            let w = write(le, &t);
            ensure!(w == e.b, "a list of {n} locators was written as {} bytes, or others than the {} of its layout", w.len(), e.b.len());
            let mut b = e.b.clone();
            b.extend([0xa5; 30]);
            let (got, used) = v::LocatorList_t::read_with_length_from_buffer_with_ctx(end(le), &b);
            ensure!(got.map(|g| g == t).unwrap_or(false) && used == e.b.len(), "a list of {n} locators was read differently, {used} of {} bytes", e.b.len());
            let got = v::LocatorList_t::read_from_stream_unbuffered_with_ctx(end(le), &b[..]);
            ensure!(got.map(|g| g == t).unwrap_or(false), "a list of {n} locators was read differently from a stream");
        } else {
            for _ in 0..30 {
                let k = if c.rng.bool() { c.rng.usize(e.b.len()) } else { 4 + 24 * c.rng.usize(n) };
                ensure!(v::LocatorList_t::read_from_buffer_with_ctx(end(le), &e.b[..k]).is_err(), "a list of {n} locators is accepted although only {k} of {} bytes are there", e.b.len());
                // an undefined kind somewhere
                let at = 4 + 24 * c.rng.usize(n);
                let kept = e.b[at..at + 4].to_vec();
                e.b[at..at + 4].copy_from_slice(&[0x7f, 1, 2, 0x7f]);
                ensure!(v::LocatorList_t::read_from_buffer_with_ctx(end(le), &e.b).is_err(), "a list of {n} locators is accepted although the one at byte {at} has an undefined kind");
                e.b[at..at + 4].copy_from_slice(&kept);
            }
            ensure!(v::LocatorList_t::read_from_buffer_with_ctx(end(le), &e.b).map(|g| g == t).unwrap_or(false), "a list of {n} locators was read differently");
        }
        c.count("long_lists", 1);
    }
    c.nontrivial(format!("{n} {}", base[0].port).as_bytes());
    Ok(())
}

pub fn c10(x: &Ctx) {
    macro_rules! run {
        ($($t:ty),*) => { $( x.cases(<$t as Wire>::NAME, 6000, c10_case::<$t>); )* };
    }
    all_wires!(run);
    x.cases("long locator lists", 10, |c| long_list(x, c, false));
    // every 16-bit and 8-bit layout, completely
    x.sweep("all ParameterId", 65536, |c| {
        let n = c.idx as u16;
        for le in [false, true] {
            let b = if le { n.to_le_bytes() } else { n.to_be_bytes() };
            let p: v::ParameterId = read(le, &b);
            ensure!(write(le, &p) == b && write(!le, &p) == [b[1], b[0]], "parameter id {n:#06x} read as {p:?} and written as {} / {}", hex(&write(le, &p)), hex(&write(!le, &p)));
            let q: v::ParameterId = read(le, &[b[0], b[1] ^ (1 << (n % 8))]);
            ensure!(p == read(!le, &[b[1], b[0]]) && p != q, "equality of parameter ids around {n:#06x}");
            let vd: v::VendorId_t = read(le, &b);
            ensure!(write(!le, &vd) == b && vd.vendor_id == b, "vendor id {} read as {vd:?}", hex(&b));
            let pv: v::ProtocolVersion_t = read(le, &b);
            ensure!(write(!le, &pv) == b && (pv.major, pv.minor) == (b[0], b[1]), "version {} read as {pv:?}", hex(&b));
            c.count("round_trips", 3);
        }
        c.nontrivial_u64(c.idx);
        Ok(())
    });
    x.require("round_trips", 10_000 * x.scale.min(100) / 100);
    x.require("equal_pairs", 100 * x.scale.min(100) / 100);
    x.require("unequal_pairs", 100 * x.scale.min(100) / 100);
}

pub fn c11(x: &Ctx) {
    macro_rules! run {
        ($($t:ty),*) => { $( x.cases(<$t as Wire>::NAME, 6000, c11_case::<$t>); )* };
    }
    all_wires!(run);
    x.cases("long locator lists", 10, |c| long_list(x, c, true));
    // all short inputs: every 0, 1 and 2 byte string for every type
    x.sweep("all short inputs", 65536 + 256 + 1, |c| {
        let b: Vec<u8> = if c.idx == 0 {
            vec![]
        } else if c.idx <= 256 {
            vec![(c.idx - 1) as u8]
        } else {
            ((c.idx - 257) as u16).to_le_bytes().to_vec()
        };
        macro_rules! one {
            ($($t:ty),*) => { $( one_read::<$t>(c, false, &b)?; )* };
        }
        all_wires!(one);
        c.nontrivial_u64(c.idx);
        Ok(())
    });
    x.require("accepted", 1000 * x.scale.min(100) / 100);
    x.require("refused", 1000 * x.scale.min(100) / 100);
    x.require("truncations", 1000 * x.scale.min(100) / 100);
}
