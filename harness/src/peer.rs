//! C23: an independent reading of the RTPS 2.3 specification (8.3.7, 9.3,
//! 9.4). It shares nothing with the other monitors' idea of the layout.
use crate::ensure;
use crate::real::*;
use crate::recv::gen_chunks;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::{Context, Item, Loc};
use rtps_rs::verif_hooks as v;
use std::net::{IpAddr, SocketAddr};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// A peer's CDR stream.
struct Cdr {
    little: bool,
    o: Vec<u8>,
}
impl Cdr {
    fn new(little: bool) -> Cdr {
        Cdr { little, o: vec![] }
    }
    fn octets(&mut self, x: &[u8]) {
        self.o.extend_from_slice(x);
    }
    fn ulong(&mut self, x: u32) {
        for i in 0..4 {
            let shift = if self.little { 8 * i } else { 24 - 8 * i };
            self.o.push((x >> shift) as u8);
        }
    }
    fn ushort(&mut self, x: u16) {
        let (h, l) = ((x >> 8) as u8, x as u8);
        self.octets(&if self.little { [l, h] } else { [h, l] });
    }
    /// long high, unsigned long low (9.3.2)
    fn seqnum(&mut self, x: i64) {
        self.ulong(((x as u64) >> 32) as u32);
        self.ulong(x as u64 as u32);
    }
    /// long kind, unsigned long port, octet address[16]
    fn locator(&mut self, l: &Loc) {
        self.ulong(l.kind as u32);
        self.ulong(l.port);
        self.octets(&l.addr);
    }
    fn locators(&mut self, l: &[Loc]) {
        self.ulong(l.len() as u32);
        for x in l {
            self.locator(x);
        }
    }
    /// bitmapBase + deltaN is marked at bit (31 - deltaN % 32) of
    /// bitmap[deltaN / 32] (9.4.2.6), which holds (numBits + 31) / 32 longs
    fn bitmap(&mut self, bits: &[bool]) {
        self.ulong(bits.len() as u32);
        for w in bits.chunks(32) {
            let mut x = 0u32;
            for (i, b) in w.iter().enumerate() {
                if *b {
                    x |= 1 << (31 - i);
                }
            }
            self.ulong(x);
        }
    }
}
struct UnCdr<'a> {
    little: bool,
    i: &'a [u8],
}
impl UnCdr<'_> {
    fn octets(&mut self, n: usize) -> Vec<u8> {
        let n2 = n.min(self.i.len());
        let (a, b) = self.i.split_at(n2);
        self.i = b;
        a.to_vec()
    }
    fn ulong(&mut self) -> u32 {
        let b = self.octets(4);
        let mut x = 0u32;
        for i in 0..b.len() {
            let k = if self.little { b.len() - 1 - i } else { i };
            x = x << 8 | b[k] as u32;
        }
        x
    }
    fn seqnum(&mut self) -> i64 {
        let h = self.ulong() as i32 as i64;
        h << 32 | self.ulong() as i64
    }
    /// positions marked, as the specification orders the bits, and as least
    /// significant first
    fn bitmap(&mut self) -> (Vec<u32>, Vec<u32>) {
        let n = self.ulong().min(256);
        let w: Vec<u32> = (0..n.div_ceil(32)).map(|_| self.ulong()).collect();
        let at = |msb: bool| (0..n).filter(|d| w[(d / 32) as usize] >> (if msb { 31 - d % 32 } else { d % 32 }) & 1 == 1).collect();
        (at(true), at(false))
    }
}

const LSB: &str = "bitmap-lsb-order";
/// Compares what was understood with what the bits mean; understanding the
/// least significant bit of each word as its first is a listed finding.
fn same_members<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], msb: &[T], lsb: &[T]) -> Verdict {
    if got == msb {
        return Ok(());
    }
    if got == lsb {
        return bad_key(LSB, format!("{what}: the bits mean {msb:?}, but were understood least significant bit first, as {got:?}"));
    }
    bad(format!("{what}: the bits mean {msb:?}, but {got:?} was understood"))
}

fn gen_bits(r: &mut Rng) -> Vec<bool> {
    let n = match r.below(4) {
        0 => *r.pick(&[0usize, 1, 31, 32, 33, 64, 255, 256]),
        _ => r.usize(257),
    };
    let d = r.range(1, 8) as u64;
    let mut v: Vec<bool> = (0..n).map(|_| r.chance(1, d)).collect();
    // words without any
    for w in v.chunks_mut(32) {
        if r.chance(1, 6) {
            w.fill(false);
        }
    }
    v
}
/// Bits that mean the same in either order of the bits in a word.
fn gen_symmetric_bits(r: &mut Rng) -> Vec<bool> {
    let words = r.usize(9);
    let mut v = vec![];
    for _ in 0..words {
        let d = *r.pick(&[0u64, 1, 3, 3]);
        let half: Vec<bool> = (0..16).map(|_| d > 0 && r.chance(1, d)).collect();
        v.extend(half.iter());
        v.extend(half.iter().rev());
    }
    v
}
fn marked(bits: &[bool]) -> Vec<i64> {
    (0..bits.len()).filter(|i| bits[*i]).map(|i| i as i64).collect()
}
/// The same words with the bits of each taken in the opposite order, as far
/// as they lie within the count.
fn mirrored(bits: &[bool]) -> Vec<i64> {
    let mut v = vec![];
    for d in 0..bits.len() {
        let m = d / 32 * 32 + 31 - d % 32;
        if m < bits.len() && bits[m] {
            v.push(d as i64);
        }
    }
    v
}

fn base_sn(r: &mut Rng) -> i64 {
    match r.below(3) {
        0 => *r.pick(&[1i64, 1, 2, 100, 0x1_0000_0000, 0xffff_ffff, 0x1234_5678_9abc, i64::MAX - 300]),
        1 => r.int(1, i64::MAX as i128 - 256) as i64,
        _ => (r.u64() >> r.range(1, 62)).clamp(1, i64::MAX as u64 - 256) as i64,
    }
}
/// An unsigned long: nothing, little, an edge, anything.
fn ulong(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 => 0,
        1 => r.below(4) as u32,
        2 => r.u32v(),
        _ => r.u32(),
    }
}

/// header, then submessages; with what they mean
struct Talk {
    o: Vec<u8>,
    ctx: Context,
    want: Vec<(Item, Context, Vec<i64>)>,
    /// The peer is of a later minor version: submessages may have more flags
    /// and contents (8.6), which are to be ignored.
    later: bool,
    more: Vec<u8>,
}
fn loc_invalid() -> Loc {
    Loc { kind: -1, port: 0, addr: [0; 16], wild_port: false }
}
fn peer_loc(r: &mut Rng) -> Loc {
    let mut addr = [0u8; 16];
    let kind = *r.pick(&[1, 1, 1, 2, -1, 0]);
    match kind {
        1 => addr[12..].copy_from_slice(&r.arr::<4>()),
        2 => addr = r.arr(),
        _ => {}
    }
    Loc { kind, port: r.u16v() as u32, addr, wild_port: false }
}
impl Talk {
    fn start(r: &mut Rng, kind: i32) -> Talk {
        let prefix: [u8; 12] = r.arr();
        let later = r.chance(1, 3);
        let minor = if later { *r.pick(&[5u8, 6, 10, 255]) } else { *r.pick(&[1u8, 2, 3, 4]) };
        let (ver, vendor) = ((2u8, minor), [1u8, r.below(20) as u8]);
        let mut o = b"RTPS".to_vec();
        o.extend([ver.0, ver.1, vendor[0], vendor[1]]);
        o.extend(prefix);
        let unknown = Loc { kind, ..loc_invalid() };
        let ctx = Context { version: ver, vendor, prefix, dest: [0; 12], uni: vec![unknown.clone()], multi: vec![unknown], ts: None };
        Talk { o, ctx, want: vec![], later, more: vec![] }
    }
    fn sub(&mut self, id: u8, flags: u8, little: bool, body: &[u8]) {
        let mut c = Cdr::new(little);
        c.octets(&[id, flags & 0xfe | little as u8]);
        c.ushort((body.len() + self.more.len()) as u16);
        c.octets(body);
        c.octets(&self.more);
        self.o.extend(c.o);
    }
    fn deliver(&mut self, i: Item, lsb: Vec<i64>) {
        self.want.push((i, self.ctx.clone(), lsb));
    }
    /// One submessage of a peer, as 8.3.7 describes its effect.
    fn add(&mut self, r: &mut Rng, symmetric: bool) {
        let little = r.bool();
        let mut c = Cdr::new(little);
        let (rd, wr): ([u8; 4], [u8; 4]) = (peer_eid(r), peer_eid(r));
        let extra = r.u8();
        let high = if self.later { r.u8() & 0xf0 } else { 0 };
        self.more = match r.below(4) {
            0 if self.later => (0..4 * r.range(1, 12)).map(|_| if r.bool() { 0 } else { r.u8() }).collect(),
            1 if self.later => {
                // what looks like more of what is known
                let mut c = Cdr::new(little);
                match r.below(4) {
                    0 => c.seqnum(base_sn(r)),
                    1 => c.bitmap(&gen_bits(r)),
                    2 => {
                        c.ulong(ulong(r));
                        c.ulong(ulong(r));
                    }
                    _ => c.locators(&(0..r.range(1, 3)).map(|_| peer_loc(r)).collect::<Vec<_>>()),
                }
                c.o
            }
            _ => vec![],
        };
        let bits = if symmetric { gen_symmetric_bits(r) } else { gen_bits(r) };
        let abs = |b: i64, v: Vec<i64>| -> Vec<i64> { v.into_iter().map(|d| b + d).collect() };
        match r.below(11) {
            0 => {
                // ACKNACK 0x06, flag 0x02 final
                let (b, n) = (base_sn(r), ulong(r) as i32);
                c.octets(&rd);
                c.octets(&wr);
                c.seqnum(b);
                c.bitmap(&bits);
                c.ulong(n as u32);
                let flags = extra & 2 | high;
                self.sub(0x06, flags, little, &c.o);
                self.deliver(
                    Item::AckNack { reader: rd, writer: wr, base: b, members: abs(b, marked(&bits)), count: n, flags: flags | little as u8 },
                    abs(b, mirrored(&bits)),
                );
            }
            1 => {
                // GAP 0x08
                let (s, b) = (base_sn(r), base_sn(r));
                c.octets(&rd);
                c.octets(&wr);
                c.seqnum(s);
                c.seqnum(b);
                c.bitmap(&bits);
                self.sub(0x08, high, little, &c.o);
                self.deliver(Item::Gap { reader: rd, writer: wr, start: s, base: b, members: abs(b, marked(&bits)) }, abs(b, mirrored(&bits)));
            }
            2 => {
                // HEARTBEAT 0x07, flags 0x02 final, 0x04 liveliness
                let (f, l, n) = (base_sn(r), base_sn(r), ulong(r) as i32);
                c.octets(&rd);
                c.octets(&wr);
                c.seqnum(f);
                c.seqnum(l);
                c.ulong(n as u32);
                let flags = extra & 6 | high;
                self.sub(0x07, flags, little, &c.o);
                self.deliver(Item::Heartbeat { reader: rd, writer: wr, first: f, last: l, count: n, flags: flags | little as u8 }, vec![]);
            }
            3 => {
                // HEARTBEAT_FRAG 0x13
                let (s, l, n) = (base_sn(r), ulong(r), ulong(r) as i32);
                c.octets(&rd);
                c.octets(&wr);
                c.seqnum(s);
                c.ulong(l);
                c.ulong(n as u32);
                self.sub(0x13, high, little, &c.o);
                self.deliver(Item::HeartbeatFrag { reader: rd, writer: wr, sn: s, last_frag: l, count: n }, vec![]);
            }
            4 => {
                // NACK_FRAG 0x12
                let (s, b, n) = (base_sn(r), ulong(r).clamp(1, u32::MAX - 255), ulong(r) as i32);
                c.octets(&rd);
                c.octets(&wr);
                c.seqnum(s);
                c.ulong(b);
                c.bitmap(&bits);
                c.ulong(n as u32);
                self.sub(0x12, high, little, &c.o);
                let m = marked(&bits).into_iter().map(|d| b + d as u32).collect();
                self.deliver(Item::NackFrag { reader: rd, writer: wr, sn: s, base: b, members: m, count: n }, abs(b as i64, mirrored(&bits)));
            }
            5 => {
                // INFO_TS 0x09, flag 0x02 invalidate
                if extra & 2 == 2 {
                    self.sub(0x09, 2 | high, little, &[]);
                    self.ctx.ts = None;
                } else {
                    let (s, f) = (ulong(r) & 0x7fff_ffff, ulong(r));
                    c.ulong(s);
                    c.ulong(f);
                    self.sub(0x09, high, little, &c.o);
                    self.ctx.ts = Some((s as i32, f));
                }
            }
            6 => {
                // INFO_DST 0x0e
                let p: [u8; 12] = if r.chance(1, 4) { [0; 12] } else { r.arr() };
                self.sub(0x0e, high, little, &p);
                self.ctx.dest = p;
            }
            7 => {
                // INFO_REPLY 0x0f, flag 0x02 multicast
                let u: Vec<Loc> = (0..r.usize(4)).map(|_| peer_loc(r)).collect();
                let m: Vec<Loc> = (0..r.usize(4)).map(|_| peer_loc(r)).collect();
                c.locators(&u);
                let multicast = extra & 2 == 2;
                if multicast {
                    c.locators(&m);
                }
                self.sub(0x0f, extra & 2 | high, little, &c.o);
                self.ctx.uni = u;
                self.ctx.multi = if multicast { m } else { vec![] };
            }
            8 => {
                // INFO_REPLY_IP4 0x0d: address and port as unsigned longs; the
                // address is a * 256^3 + b * 256^2 + c * 256 + d
                let mut one = |c: &mut Cdr| {
                    let (mut ip, port): ([u8; 4], u32) = (r.arr(), r.u16v() as u32);
                    ip[0] = ip[0].max(1);
                    c.ulong((ip[0] as u32) << 24 | (ip[1] as u32) << 16 | (ip[2] as u32) << 8 | ip[3] as u32);
                    c.ulong(port);
                    let mut addr = [0; 16];
                    addr[12..].copy_from_slice(&ip);
                    Loc { kind: 1, port, addr, wild_port: false }
                };
                let u = one(&mut c);
                let multicast = extra & 2 == 2;
                let m = if multicast { vec![one(&mut c)] } else { vec![] };
                self.sub(0x0d, extra & 2 | high, little, &c.o);
                self.ctx.uni = vec![u];
                self.ctx.multi = m;
            }
            9 => {
                // PAD 0x01, and something of a vendor's
                let n = r.usize(12);
                let b = r.bytes(n);
                self.more.clear();
                self.sub(if r.bool() { 0x01 } else { 0x80 | extra }, extra, little, &b);
                if b.is_empty() && self.o[self.o.len() - 4] != 0x01 {
                    // a length of zero would end the message: no, give it a body
                    let k = self.o.len() - 4;
                    let id = self.o[k];
                    self.o.truncate(k);
                    self.sub(id, extra, little, &[0; 4]);
                }
            }
            _ => {}
        }
    }
}
fn peer_eid(r: &mut Rng) -> [u8; 4] {
    match r.below(3) {
        0 => [0, 0, 0, 0],
        1 => *r.pick(&[[0, 0, 3, 0xc2], [0, 0, 3, 0xc7], [0, 1, 0, 0xc2], [0, 2, 0, 0xc7]]),
        _ => r.arr(),
    }
}

fn listen(c: &mut Case, kind: i32, t: &Talk) -> Verdict {
    let mut rx = Recv::new(kind);
    let ch = gen_chunks(&mut c.rng, t.o.len());
    let mut at = 0;
    let mut n = 0;
    let mut finding: Option<Bad> = None;
    for k in ch {
        rx.feed(&t.o[at..at + k]);
        at += k;
        loop {
            let o = match guarded(|| rx.next()) {
                Ok(o) => o,
                Err((m, l)) => return bad_key("panic", format!("a peer's message made decode panic: {m} at {l}: {}", hex(&t.o))),
            };
            match o {
                Out::None => break,
                Out::Err(e) => return bad(format!("a peer's message was answered with {e:?}: {}", hex(&t.o))),
                Out::Item(i) => {
                    ensure!(n < t.want.len(), "more was understood than a peer said: {i:?}; {}", hex(&t.o));
                    let (want, ctx, lsb) = &t.want[n];
                    let got = i.clone();
                    if &i != want {
                        // the same but for the order of the bits in each word?
                        let alt = with_members(want, lsb);
                        if alt.as_ref() == Some(&i) {
                            finding = Some(Bad { key: LSB.into(), msg: format!("a peer meant {want:?}, but {got:?} was understood: the bits are taken least significant first; message {}", hex(&t.o)) });
                        } else {
                            return bad(format!("a peer meant {want:?}, but {got:?} was understood; message {}", hex(&t.o)));
                        }
                    }
                    if let Some(d) = ctx.diff(&rx.ctx()) {
                        return bad(format!("the context of {want:?} in a peer's message: {d}; message {}", hex(&t.o)));
                    }
                    c.count("items_understood", 1);
                    n += 1;
                }
            }
        }
    }
    ensure!(n == t.want.len(), "a peer's {:?} was not understood; message {}", t.want[n].0, hex(&t.o));
    if let Some(d) = t.ctx.diff(&rx.ctx()) {
        return bad(format!("the context at the end of a peer's message: {d}; message {}", hex(&t.o)));
    }
    c.count("messages_understood", 1);
    if t.later {
        c.count("messages_of_later_versions", 1);
    }
    c.nontrivial(&t.o);
    match finding {
        Some(b) => Err(b),
        None => Ok(()),
    }
}
fn with_members(i: &Item, m: &[i64]) -> Option<Item> {
    let mut j = i.clone();
    match &mut j {
        Item::AckNack { members, .. } | Item::Gap { members, .. } => *members = m.to_vec(),
        Item::NackFrag { members, .. } => *members = m.iter().map(|x| *x as u32).collect(),
        _ => return None,
    }
    Some(j)
}

const SRC: &str = "info-src-unused";
/// INFO_SRC 0x0c: long unused, version, vendor, prefix (9.4.5.10)
fn info_source(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let kind = gen_kind(r);
    let mut t = Talk::start(r, kind);
    for _ in 0..r.usize(3) {
        t.add(r, true);
    }
    let little = r.bool();
    let unused: [u8; 4] = if r.bool() { [0; 4] } else { r.arr() };
    let (ver, vendor, prefix): ([u8; 2], [u8; 2], [u8; 12]) = ([2, r.below(5) as u8], r.arr(), r.arr());
    let body = [&unused[..], &ver, &vendor, &prefix].concat();
    t.sub(0x0c, 0, little, &body);
    let before = t.ctx.clone();
    t.ctx = Context {
        version: (ver[0], ver[1]),
        vendor,
        prefix,
        uni: vec![loc_invalid()],
        multi: vec![loc_invalid()],
        ts: None,
        dest: before.dest,
    };
    let mut rx = Recv::new(kind);
    rx.feed(&t.o);
    let out = guarded(|| rx.drain()).map_err(|(m, l)| Bad { key: "panic".into(), msg: format!("a peer's INFO_SRC made decode panic: {m} at {l}: {}", hex(&t.o)) })?;
    ensure!(out.len() == t.want.len() && out.iter().zip(&t.want).all(|(o, w)| *o == Out::Item(w.0.clone())), "a peer's INFO_SRC: {out:?} came out of {}", hex(&t.o));
    let got = rx.ctx();
    c.count("info_sources", 1);
    c.nontrivial(&t.o);
    if t.ctx.diff(&got).is_none() {
        return Ok(());
    }
    // the listed finding: the first four bytes are taken for version and
    // vendor, and the prefix starts with what should be those
    let mut shifted = t.ctx.clone();
    shifted.version = (body[0], body[1]);
    shifted.vendor = [body[2], body[3]];
    shifted.prefix.copy_from_slice(&body[4..16]);
    if shifted.diff(&got).is_none() {
        return bad_key(SRC, format!("a peer's INFO_SRC (4 unused bytes {}, then version {:?}, vendor {:?}, prefix {}) was understood as version {:?}, vendor {:?}, prefix {}", hex(&unused), ver, vendor, hex(&prefix), got.version, got.vendor, hex(&got.prefix)));
    }
    bad(format!("a peer's INFO_SRC {} gave the context {got:?}: {}", hex(&body), t.ctx.diff(&got).unwrap_or_default()))
}

/// Values made here, encoded, and read by the peer.
fn spoken(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let little = r.bool();
    let base = base_sn(r);
    let mut finding = Ok(());
    match r.below(11) {
        0 => {
            let mut s = v::SequenceNumberSet_t::new(mk_sn(base));
            let mut want = std::collections::BTreeSet::new();
            for _ in 0..r.usize(20) {
                let d = r.below(256) as i64;
                s.insert(mk_sn(base + d));
                want.insert(d as u32);
            }
            let b = write(little, &s);
            let mut p = UnCdr { little, i: &b };
            let pb = p.seqnum();
            let (msb, lsb) = p.bitmap();
            let want: Vec<u32> = want.into_iter().collect();
            ensure!(pb == base && p.i.is_empty(), "a set based at {base} was encoded as {}, which a peer reads with base {pb} and {} bytes left over", hex(&b), p.i.len());
            finding = same_members(&format!("a set with offsets {want:?}, encoded as {}", hex(&b)), &want, &msb, &lsb);
            c.count("sets_spoken", 1);
        }
        1 => {
            let base = base as u32;
            let mut s = v::FragmentNumberSet_t::new(base.into());
            let mut want = std::collections::BTreeSet::new();
            for _ in 0..r.usize(20) {
                let d = r.below(256) as u32;
                if s.insert(base.wrapping_add(d).into()) && base.checked_add(d).is_some() {
                    want.insert(d);
                }
            }
            let b = write(little, &s);
            let mut p = UnCdr { little, i: &b };
            let pb = p.ulong();
            let (msb, lsb) = p.bitmap();
            let want: Vec<u32> = want.into_iter().collect();
            ensure!(pb == base && p.i.is_empty(), "a fragment set based at {base} was encoded as {}, which a peer reads with base {pb}", hex(&b));
            finding = same_members(&format!("a fragment set with offsets {want:?}, encoded as {}", hex(&b)), &want, &msb, &lsb);
            c.count("sets_spoken", 1);
        }
        2 => {
            let (f, l, n) = (base, base_sn(r), r.u32() as i32);
            let (rd, wr) = (peer_eid(r), peer_eid(r));
            let b = write(little, &v::Heartbeat { reader_id: mk_eid(rd), writer_id: mk_eid(wr), first_sn: mk_sn(f), last_sn: mk_sn(l), count: n.into() });
            let mut p = UnCdr { little, i: &b };
            let got = (p.octets(4), p.octets(4), p.seqnum(), p.seqnum(), p.ulong() as i32, p.i.len());
            ensure!(got == (rd.to_vec(), wr.to_vec(), f, l, n, 0), "a heartbeat of {wr:?} for {rd:?} with {f} to {l}, count {n}, is understood by a peer as {got:?}");
            c.count("heartbeats_spoken", 1);
        }
        3 => {
            let (s, l, n) = (base, r.u32(), r.u32() as i32);
            let (rd, wr) = (peer_eid(r), peer_eid(r));
            let b = write(little, &v::HeartbeatFrag { reader_id: mk_eid(rd), writer_id: mk_eid(wr), writer_sn: mk_sn(s), last_fragment_num: l.into(), count: n.into() });
            let mut p = UnCdr { little, i: &b };
            let got = (p.octets(4), p.octets(4), p.seqnum(), p.ulong(), p.ulong() as i32, p.i.len());
            ensure!(got == (rd.to_vec(), wr.to_vec(), s, l, n, 0), "a fragment heartbeat is understood by a peer as {got:?}");
            c.count("heartbeats_spoken", 1);
        }
        4 => {
            // a header made here
            let prefix: [u8; 12] = r.arr();
            let b = write(little, &v::Header::new(prefix.into()));
            ensure!(b.len() == 20 && b[..4] == *b"RTPS" && b[4] == 2 && b[8..] == prefix, "a header made for prefix {} is {}", hex(&prefix), hex(&b));
            c.count("headers_spoken", 1);
        }
        5 => {
            let l = peer_loc(r);
            let b = write(little, &mk_loc(&l));
            let mut w = Cdr::new(little);
            w.locator(&l);
            ensure!(b == w.o, "the locator {l:?} is encoded as {}, a peer expects {}", hex(&b), hex(&w.o));
            let list: Vec<Loc> = (0..r.usize(5)).map(|_| peer_loc(r)).collect();
            let b = write(little, &list.iter().map(mk_loc).collect::<Vec<_>>());
            let mut w = Cdr::new(little);
            w.locators(&list);
            ensure!(b == w.o, "a list of {} locators is encoded as {}, a peer expects {}", list.len(), hex(&b), hex(&w.o));
            c.count("locators_spoken", 2);
        }
        6 => {
            let (id, flags, len) = (*r.pick(&[1u8, 6, 7, 8, 9, 0xc, 0xd, 0xe, 0xf, 0x12, 0x13, 0x15, 0x16]), r.u8(), r.u16v());
            let b = write(little, &v::SubmessageHeader { submessage_id: read(little, &[id]), flags: v::SubmessageFlag { flags }, submessage_length: len });
            let mut p = Cdr::new(flags & 1 == 1);
            p.octets(&[id, flags]);
            p.ushort(len);
            ensure!(b == p.o, "a submessage header ({id:#x}, flags {flags:#x}, length {len}) is encoded as {}, a peer expects {}", hex(&b), hex(&p.o));
            c.count("headers_spoken", 1);
        }
        7 => {
            // a socket address as a locator
            let mut v4: [u8; 4] = r.arr();
            let mut v6: [u8; 16] = r.arr();
            for _ in 0..4 {
                match crate::values::gen_ip(r) {
                    IpAddr::V4(x) => v4 = x.octets(),
                    IpAddr::V6(x) => v6 = x.octets(),
                }
            }
            let port = if r.chance(1, 4) { r.u8() as u16 } else { r.u16v() };
            // the short form that INFO_REPLY_IP4 has: two unsigned longs
            {
                let a = std::net::SocketAddrV4::new(v4.into(), port);
                let mut w = Cdr::new(little);
                w.ulong(u32::from_be_bytes(v4));
                w.ulong(port as u32);
                let b = write(little, &v::LocatorUDPv4_t::from(a));
                ensure!(b == w.o, "{a} becomes the compact locator {}, a peer expects {} (little endian: {little})", hex(&b), hex(&w.o));
                let back = std::net::SocketAddrV4::from(read::<v::LocatorUDPv4_t>(little, &w.o));
                ensure!(back == a, "a peer's compact locator for {a} is understood as {back}");
                let full = loc(&v::Locator_t::from(read::<v::LocatorUDPv4_t>(little, &w.o)));
                let mut addr = [0u8; 16];
                addr[12..].copy_from_slice(&v4);
                if v4 != [0; 4] {
                    ensure!((full.kind, full.port, full.addr) == (1, port as u32, addr), "a peer's compact locator for {a} is understood as {full:?}");
                }
            }
            for (ip, kind, addr) in [
                (IpAddr::from(v4), 1, [[0; 12].to_vec(), v4.to_vec()].concat()),
                (IpAddr::from(v6), 2, v6.to_vec()),
            ] {
                if ip.is_unspecified() {
                    continue;
                }
                let b = write(little, &v::Locator_t::from(SocketAddr::new(ip, port)));
                let mut w = Cdr::new(little);
                w.ulong(kind);
                w.ulong(port as u32);
                w.octets(&addr);
                ensure!(b == w.o, "{ip} port {port} becomes the locator {}, a peer expects {}", hex(&b), hex(&w.o));
                let back = SocketAddr::from(read::<v::Locator_t>(little, &w.o));
                ensure!(back == SocketAddr::new(ip, port), "a peer's locator for {ip} port {port} is understood as {back}");
            }
            c.count("addresses_spoken", 2);
        }
        8 | 9 => {
            // requests and declarations
            let frags = r.chance(1, 3);
            let small = if frags { base as u32 as i64 } else { base };
            let top = if frags { u32::MAX as i64 } else { i64::MAX };
            let offs: std::collections::BTreeSet<u32> = (0..r.usize(20)).map(|_| r.below(256) as u32).filter(|d| small <= top - *d as i64).collect();
            let (rd, wr, n, start) = (peer_eid(r), peer_eid(r), r.u32() as i32, base_sn(r));
            let ids = |p: &mut UnCdr| (p.octets(4), p.octets(4));
            let same_ids = (rd.to_vec(), wr.to_vec());
            let want: Vec<u32> = offs.iter().copied().collect();
            if frags {
                let mut s = v::FragmentNumberSet_t::new((small as u32).into());
                for d in &offs {
                    s.insert((small as u32 + d).into());
                }
                let b = write(little, &v::NackFrag { reader_id: mk_eid(rd), writer_id: mk_eid(wr), writer_sn: mk_sn(start), fragment_number_state: s, count: n.into() });
                let mut p = UnCdr { little, i: &b };
                let got = (ids(&mut p), p.seqnum(), p.ulong());
                let (msb, lsb) = p.bitmap();
                let end = (p.ulong() as i32, p.i.len());
                ensure!(got == (same_ids, start, small as u32) && end == (n, 0), "a NACK_FRAG of {start} with base {small} and count {n} is encoded as {}, which a peer understands as {got:?} {end:?}", hex(&b));
                finding = same_members(&format!("a NACK_FRAG for offsets {want:?}, encoded as {}", hex(&b)), &want, &msb, &lsb);
            } else {
                let mut s = v::SequenceNumberSet_t::new(mk_sn(small));
                for d in &offs {
                    s.insert(mk_sn(small + *d as i64));
                }
                let gap = r.bool();
                let b = if gap {
                    write(little, &v::Gap { reader_id: mk_eid(rd), writer_id: mk_eid(wr), gap_start: mk_sn(start), gap_list: s })
                } else {
                    write(little, &v::AckNack { reader_id: mk_eid(rd), writer_id: mk_eid(wr), reader_sn_state: s, count: n.into() })
                };
                let mut p = UnCdr { little, i: &b };
                let got = (ids(&mut p), if gap { p.seqnum() } else { start }, p.seqnum());
                let (msb, lsb) = p.bitmap();
                let end = (if gap { n } else { p.ulong() as i32 }, p.i.len());
                ensure!(got == (same_ids, start, small) && end == (n, 0), "{} from {start} with base {small} and count {n} is encoded as {}, which a peer understands as {got:?} {end:?}", if gap { "a GAP" } else { "an ACKNACK" }, hex(&b));
                finding = same_members(&format!("{} for offsets {want:?}, encoded as {}", if gap { "a GAP" } else { "an ACKNACK" }, hex(&b)), &want, &msb, &lsb);
            }
            c.count("requests_spoken", 1);
        }
        _ => {
            let (ver, vendor, prefix): ([u8; 2], [u8; 2], [u8; 12]) = (r.arr(), r.arr(), r.arr());
            let b = write(little, &v::InfoDestination { guid_prefix: prefix.into() });
            ensure!(b == prefix, "an INFO_DST for {} is encoded as {}", hex(&prefix), hex(&b));
            let b = write(little, &v::InfoSource { protocol_version: v::ProtocolVersion_t { major: ver[0], minor: ver[1] }, vendor_id: vendor.into(), guid_prefix: prefix.into() });
            let tail = [&ver[..], &vendor, &prefix].concat();
            c.count("info_sources", 1);
            if b.len() == 20 && b[4..] == tail[..] {
                // as specified
            } else if b == tail {
                finding = bad_key(SRC, format!("an INFO_SRC is encoded as {}, without the four unused bytes a peer expects first", hex(&b)));
            } else {
                return bad(format!("an INFO_SRC of version {ver:?}, vendor {vendor:?}, prefix {} is encoded as {}", hex(&prefix), hex(&b)));
            }
        }
    }
    c.nontrivial_u64(c.idx);
    finding
}

const FRAC: &str = "duration-fraction-nanos";
fn nanos(frac: u32) -> u64 {
    ((frac as u128 * 1_000_000_000) >> 32) as u64
}
fn clock(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let little = r.bool();
    let frac = match r.below(5) {
        0 => *r.pick(&[0u32, 1, 0x8000_0000, 0x4000_0000, 0xffff_ffff, 0x1999_9999, 999_999_999, 1_000_000_000, 5]),
        _ => r.u32(),
    };
    let secs = if r.chance(1, 4) { r.below(3) as u32 } else { r.u32() >> 1 };
    let mut p = Cdr::new(little);
    p.ulong(secs);
    p.ulong(frac);
    let sentinel = secs == 0x7fff_ffff && frac == u32::MAX;
    // a peer's time
    if !sentinel {
        let t: v::Time_t = read(little, &p.o);
        let got = match guarded(|| SystemTime::try_from(t)) {
            Ok(Ok(x)) => x.duration_since(UNIX_EPOCH).map_err(|_| Bad { key: "mismatch".into(), msg: format!("a peer's time of {secs} s is understood as before the epoch") })?,
            Ok(Err(_)) => return bad(format!("a peer's time of {secs} s and {frac}/2^32 is refused")),
            Err((m, l)) => return bad_key("panic", format!("a peer's time of {secs} s and {frac}/2^32: panic {m} at {l}")),
        };
        let want = Duration::new(secs as u64, 0) + Duration::from_nanos(nanos(frac));
        let off = got.as_nanos().abs_diff(want.as_nanos());
        ensure!(off <= 2, "a peer's time of {secs} s and {frac}/2^32 is understood as {got:?}, it is {want:?}");
        c.count("times", 1);
    }
    // a time told to a peer
    let ns = c.rng.below(1_000_000_000) as u32;
    let st = UNIX_EPOCH + Duration::new(secs as u64, ns);
    let b = write(little, &v::Time_t::from(st));
    let mut q = UnCdr { little, i: &b };
    let (s, f) = (q.ulong(), q.ulong());
    let told = s as u128 * 1_000_000_000 + nanos(f) as u128;
    let want = secs as u128 * 1_000_000_000 + ns as u128;
    if secs < 0x7fff_ffff {
        ensure!(told.abs_diff(want) <= 2, "the time {secs} s {ns} ns is told to a peer as {s} s and {f}/2^32");
    }
    // a peer's duration
    let mut finding = Ok(());
    if !sentinel {
        let d: v::Duration_t = read(little, &p.o);
        let got = guarded(|| Duration::from(d)).map_err(|(m, l)| Bad { key: "panic".into(), msg: format!("a peer's duration of {secs} s and {frac}/2^32: panic {m} at {l}") })?;
        let want = Duration::new(secs as u64, 0) + Duration::from_nanos(nanos(frac));
        c.count("durations", 1);
        if got.as_nanos().abs_diff(want.as_nanos()) > 2 {
            if got == Duration::new(secs as u64, 0) + Duration::from_nanos(frac as u64) {
                finding = bad_key(FRAC, format!("a peer's duration of {secs} s and {frac}/2^32 s ({want:?}) is understood as {got:?}: the fraction is taken for nanoseconds"));
            } else {
                return bad(format!("a peer's duration of {secs} s and {frac}/2^32 s ({want:?}) is understood as {got:?}"));
            }
        }
    }
    // a duration told to a peer
    let std = Duration::new(secs as u64, ns);
    let b = write(little, &v::Duration_t::from(std));
    let mut q = UnCdr { little, i: &b };
    let (s, f) = (q.ulong(), q.ulong());
    if secs < 0x7fff_ffff {
        ensure!(s == secs || (s == secs + 1 && nanos(f) <= 2), "the duration {std:?} is told to a peer with {s} seconds");
        let told = s as u128 * 1_000_000_000 + nanos(f) as u128;
        if told.abs_diff(std.as_nanos()) > 2 {
            if s == secs && f == ns {
                finding = bad_key(FRAC, format!("the duration {std:?} is told to a peer as {s} s and {f}/2^32 s: nanoseconds are sent as the fraction"));
            } else {
                return bad(format!("the duration {std:?} is told to a peer as {s} s and {f}/2^32 s"));
            }
        }
    }
    c.nontrivial(&p.o);
    finding
}

/// Well-known values (8.2.4.3 and 9.3 to 9.6 of the specification).
fn constants(c: &mut Case) -> Verdict {
    let little = c.idx % 2 == 0;
    let mut bad_ones = vec![];
    let mut n = 0;
    let mut check = |name: &str, got: Vec<u8>, want: &[u8]| {
        n += 1;
        if got != want {
            bad_ones.push(format!("{name} is {}, specified as {}", hex(&got), hex(want)));
        }
    };
    macro_rules! eids {
        ($($n:ident $w:expr),* $(,)?) => { $( check(stringify!($n), write(little, &v::EntityId_t::$n), &u32::to_be_bytes($w)); )* };
    }
    eids!(
        ENTITYID_UNKNOWN 0,
        ENTITYID_PARTICIPANT 0x000001c1,
        ENTITYID_SEDP_BUILTIN_TOPIC_WRITER 0x000002c2,
        ENTITYID_SEDP_BUILTIN_TOPIC_READER 0x000002c7,
        ENTITYID_SEDP_BUILTIN_PUBLICATIONS_WRITER 0x000003c2,
        ENTITYID_SEDP_BUILTIN_PUBLICATIONS_READER 0x000003c7,
        ENTITYID_SEDP_BUILTIN_SUBSCRIPTIONS_WRITER 0x000004c2,
        ENTITYID_SEDP_BUILTIN_SUBSCRIPTIONS_READER 0x000004c7,
        ENTITYID_SPDP_BUILTIN_PARTICIPANT_WRITER 0x000100c2,
        ENTITYID_SPDP_BUILTIN_PARTICIPANT_READER 0x000100c7,
        ENTITYID_P2P_BUILTIN_PARTICIPANT_MESSAGE_WRITER 0x000200c2,
        ENTITYID_P2P_BUILTIN_PARTICIPANT_MESSAGE_READER 0x000200c7,
    );
    macro_rules! pids {
        ($($n:ident $w:expr),* $(,)?) => { $( { let mut p = Cdr::new(little); p.ushort($w); check(stringify!($n), write(little, &v::ParameterId::$n), &p.o); } )* };
    }
    pids!(
        PID_PAD 0x0000, PID_SENTINEL 0x0001, PID_USER_DATA 0x002c, PID_TOPIC_NAME 0x0005, PID_TYPE_NAME 0x0007,
        PID_GROUP_DATA 0x002d, PID_TOPIC_DATA 0x002e, PID_DURABILITY 0x001d, PID_DURABILITY_SERVICE 0x001e,
        PID_DEADLINE 0x0023, PID_LATENCY_BUDGET 0x0027, PID_LIVELINESS 0x001b, PID_RELIABILITY 0x001a,
        PID_LIFESPAN 0x002b, PID_DESTINATION_ORDER 0x0025, PID_HISTORY 0x0040, PID_RESOURCE_LIMITS 0x0041,
        PID_OWNERSHIP 0x001f, PID_OWNERSHIP_STRENGTH 0x0006, PID_PRESENTATION 0x0021, PID_PARTITION 0x0029,
        PID_TIME_BASED_FILTER 0x0004, PID_TRANSPORT_PRIO 0x0049, PID_PROTOCOL_VERSION 0x0015, PID_VENDOR_ID 0x0016,
        PID_UNICAST_LOCATOR 0x002f, PID_MULTICAST_LOCATOR 0x0030, PID_MULTICAST_IPADDRESS 0x0011,
        PID_DEFAULT_UNICAST_LOCATOR 0x0031, PID_DEFAULT_MULTICAST_LOCATOR 0x0048, PID_METATRAFFIC_UNICAST_LOCATOR 0x0032,
        PID_METATRAFFIC_MULTICAST_LOCATOR 0x0033, PID_DEFAULT_UNICAST_IPADDRESS 0x000c, PID_DEFAULT_UNICAST_PORT 0x000e,
        PID_METATRAFFIC_UNICAST_IPADDRESS 0x0045, PID_METATRAFFIC_UNICAST_PORT 0x000d, PID_METATRAFFIC_MULTICAST_IPADDRESS 0x000b,
        PID_METATRAFFIC_MULTICAST_PORT 0x0046, PID_EXPECTS_INLINE_QOS 0x0043, PID_PARTICIPANT_MANUAL_LIVELINESS_COUNT 0x0034,
        PID_PARTICIPANT_BUILTIN_ENDPOINTS 0x0044, PID_PARTICIPANT_LEASE_DURATION 0x0002, PID_CONTENT_FILTER_PROPERTY 0x0035,
        PID_PARTICIPANT_GUID 0x0050, PID_GROUP_GUID 0x0052, PID_GROUP_ENTITYID 0x0053, PID_BUILTIN_ENDPOINT_SET 0x0058,
        PID_PROPERTY_LIST 0x0059, PID_TYPE_MAX_SIZE_SERIALIZED 0x0060, PID_ENTITY_NAME 0x0062, PID_KEY_HASH 0x0070,
        PID_STATUS_INFO 0x0071,
    );
    macro_rules! kinds {
        ($($n:ident $w:expr),* $(,)?) => { $( check(stringify!($n), write(little, &v::SubmessageKind::$n), &[$w]); )* };
    }
    kinds!(
        PAD 0x01, ACKNACK 0x06, HEARTBEAT 0x07, GAP 0x08, INFO_TS 0x09, INFO_SRC 0x0c, INFO_REPLAY_IP4 0x0d, INFO_DST 0x0e,
        INFO_REPLAY 0x0f, NACK_FRAG 0x12, HEARTBEAT_FRAG 0x13, DATA 0x15, DATA_FRAG 0x16,
    );
    let long = |x: i32| {
        let mut p = Cdr::new(little);
        p.ulong(x as u32);
        p.o
    };
    check("LOCATOR_KIND_INVALID", write(little, &v::LocatorKind_t::LOCATOR_KIND_INVALID), &long(-1));
    check("LOCATOR_KIND_RESERVED", write(little, &v::LocatorKind_t::LOCATOR_KIND_RESERVED), &long(0));
    check("LOCATOR_KIND_UDPv4", write(little, &v::LocatorKind_t::LOCATOR_KIND_UDPv4), &long(1));
    check("LOCATOR_KIND_UDPv6", write(little, &v::LocatorKind_t::LOCATOR_KIND_UDPv6), &long(2));
    check("NO_KEY", write(little, &v::TopicKind_t::NO_KEY), &long(1));
    check("WITH_KEY", write(little, &v::TopicKind_t::WITH_KEY), &long(2));
    check("BEST_EFFORT", write(little, &v::ReliabilityKind_t::BEST_EFFORT), &long(1));
    check("RELIABLE", write(little, &v::ReliabilityKind_t::RELIABLE), &long(2));
    check("LOCATOR_INVALID", write(little, &v::Locator_t::LOCATOR_INVALID), &[long(-1), long(0), vec![0; 16]].concat());
    check("LOCATORUDPv4_INVALID", write(little, &v::LocatorUDPv4_t::LOCATORUDPv4_INVALID), &[0; 8]);
    check("SEQUENCENUMBER_UNKNOWN", write(little, &v::SequenceNumber_t::SEQUENCENUMBER_UNKNOWN), &[long(-1), long(0)].concat());
    check("GUIDPREFIX_UNKNOWN", write(little, &v::GuidPrefix_t::GUIDPREFIX_UNKNOWN), &[0; 12]);
    check("GUID_UNKNOWN", write(little, &v::GUID_t::GUID_UNKNOWN), &[0; 16]);
    check("TIME_ZERO", write(little, &v::Time_t::TIME_ZERO), &[0; 8]);
    check("TIME_INVALID", write(little, &v::Time_t::TIME_INVALID), &[0xff; 8]);
    check("TIME_INFINITE", write(little, &v::Time_t::TIME_INFINITE), &[long(0x7fff_ffff), long(-1)].concat());
    check("DURATION_ZERO", write(little, &v::Duration_t::DURATION_ZERO), &[0; 8]);
    check("DURATION_INFINITE", write(little, &v::Duration_t::DURATION_INFINITE), &[long(0x7fff_ffff), long(-1)].concat());
    check("PROTOCOL_RTPS", write(little, &v::ProtocolId_t::PROTOCOL_RTPS), b"RTPS");
    check("VENDOR_UNKNOWN", write(little, &v::VendorId_t::VENDOR_UNKNOWN), &[0, 0]);
    for (x, a, b, n) in [
        (v::ProtocolVersion_t::PROTOCOLVERSION_1_0, 1, 0, "1.0"),
        (v::ProtocolVersion_t::PROTOCOLVERSION_1_1, 1, 1, "1.1"),
        (v::ProtocolVersion_t::PROTOCOLVERSION_2_0, 2, 0, "2.0"),
        (v::ProtocolVersion_t::PROTOCOLVERSION_2_1, 2, 1, "2.1"),
        (v::ProtocolVersion_t::PROTOCOLVERSION_2_2, 2, 2, "2.2"),
        (v::ProtocolVersion_t::PROTOCOLVERSION_2_4, 2, 4, "2.4"),
    ] {
        check(n, write(little, &x), &[a, b]);
    }
    // and the other way round
    for k in [0x06u8, 0x07, 0x08, 0x09, 0x0c, 0x0d, 0x0e, 0x0f, 0x12, 0x13, 0x15, 0x16, 0x01] {
        let x: v::SubmessageKind = read(little, &[k]);
        let same = [
            (0x01, v::SubmessageKind::PAD),
            (0x06, v::SubmessageKind::ACKNACK),
            (0x07, v::SubmessageKind::HEARTBEAT),
            (0x08, v::SubmessageKind::GAP),
            (0x09, v::SubmessageKind::INFO_TS),
            (0x0c, v::SubmessageKind::INFO_SRC),
            (0x0d, v::SubmessageKind::INFO_REPLAY_IP4),
            (0x0e, v::SubmessageKind::INFO_DST),
            (0x0f, v::SubmessageKind::INFO_REPLAY),
            (0x12, v::SubmessageKind::NACK_FRAG),
            (0x13, v::SubmessageKind::HEARTBEAT_FRAG),
            (0x15, v::SubmessageKind::DATA),
            (0x16, v::SubmessageKind::DATA_FRAG),
        ];
        for (n, y) in same {
            if (x == y) != (n == k) {
                return bad(format!("submessage kind {k:#x} read from the wire compares {} to the constant for {n:#x}", x == y));
            }
        }
    }
    c.count("constants", n);
    c.nontrivial_u64(c.idx);
    ensure!(bad_ones.is_empty(), "{}", bad_ones.join("; "));
    Ok(())
}

/// A bare set from a peer.
fn heard_set(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let little = r.bool();
    let bits = gen_bits(r);
    let base = base_sn(r);
    let mut p = Cdr::new(little);
    p.seqnum(base);
    p.bitmap(&bits);
    let (b, got) = sn_set(read(little, &p.o));
    let abs = |v: Vec<i64>| -> Vec<i64> { v.into_iter().map(|d| base + d).collect() };
    ensure!(b == base, "a peer's set based at {base} is understood with base {b}");
    let one = same_members(&format!("a peer's set {}", hex(&p.o)), &got, &abs(marked(&bits)), &abs(mirrored(&bits)));
    let fb = *r.pick(&[1u32, 9, 0x8000_0000, u32::MAX - 255]);
    let mut p = Cdr::new(little);
    p.ulong(fb);
    p.bitmap(&bits);
    let (b, got) = fn_set(read(little, &p.o));
    let abs = |v: Vec<i64>| -> Vec<u32> { v.into_iter().map(|d| fb + d as u32).collect() };
    ensure!(b == fb, "a peer's fragment set based at {fb} is understood with base {b}");
    let two = same_members(&format!("a peer's fragment set {}", hex(&p.o)), &got, &abs(marked(&bits)), &abs(mirrored(&bits)));
    c.count("sets_heard", 2);
    c.nontrivial(&p.o);
    match (one, two) {
        (Err(a), Err(b)) => Err(if a.key == LSB { b } else { a }),
        (a, b) => a.and(b),
    }
}

pub fn c23(x: &Ctx) {
    x.cases("messages", 40_000, |c| {
        let kind = gen_kind(&mut c.rng);
        let mut t = Talk::start(&mut c.rng, kind);
        for _ in 0..c.rng.range(1, 12) {
            t.add(&mut c.rng, true);
        }
        c.sample(|| format!("a peer's message {} meaning {:?}", hex(&t.o), t.want.iter().map(|w| &w.0).collect::<Vec<_>>()));
        listen(c, kind, &t)
    });
    x.cases("messages with any bitmaps", 10_000, |c| {
        let kind = gen_kind(&mut c.rng);
        let mut t = Talk::start(&mut c.rng, kind);
        for _ in 0..c.rng.range(1, 6) {
            t.add(&mut c.rng, false);
        }
        listen(c, kind, &t)
    });
    x.cases("sets", 10_000, heard_set);
    x.cases("source", 10_000, info_source);
    x.cases("spoken", 40_000, spoken);
    x.cases("clock", 60_000, clock);
    x.sweep("constants", 2, constants);
    for k in ["items_understood", "messages_understood", "messages_of_later_versions", "requests_spoken", "info_sources", "sets_heard", "sets_spoken", "times", "durations", "locators_spoken", "addresses_spoken", "heartbeats_spoken"] {
        x.require(k, 500);
    }
    x.require("constants", 90);
}
