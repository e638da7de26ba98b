//! The monitors' own, independent notion of RTPS: plain values, an encoder, a
//! generator of messages with their meaning, and a reference interpreter that
//! works on arbitrary bytes. Nothing here calls the crate under test.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Loc {
    pub kind: i32,
    pub port: u32,
    pub addr: [u8; 16],
    /// The port came from a compact locator and exceeds 65535: it may also be
    /// represented as "no port".
    pub wild_port: bool,
}
impl Loc {
    pub fn same(&self, got: &Loc) -> bool {
        self.kind == got.kind && self.addr == got.addr && (self.port == got.port || (self.wild_port && got.port == 0))
    }
}
pub const INVALID_LOC: Loc = Loc { kind: -1, port: 0, addr: [0; 16], wild_port: false };

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    AckNack { reader: [u8; 4], writer: [u8; 4], base: i64, members: Vec<i64>, count: i32, flags: u8 },
    Gap { reader: [u8; 4], writer: [u8; 4], start: i64, base: i64, members: Vec<i64> },
    Heartbeat { reader: [u8; 4], writer: [u8; 4], first: i64, last: i64, count: i32, flags: u8 },
    HeartbeatFrag { reader: [u8; 4], writer: [u8; 4], sn: i64, last_frag: u32, count: i32 },
    NackFrag { reader: [u8; 4], writer: [u8; 4], sn: i64, base: u32, members: Vec<u32>, count: i32 },
    Other(String),
}
impl Item {
    pub fn kind(&self) -> &'static str {
        match self {
            Item::AckNack { .. } => "AckNack",
            Item::Gap { .. } => "Gap",
            Item::Heartbeat { .. } => "Heartbeat",
            Item::HeartbeatFrag { .. } => "HeartbeatFrag",
            Item::NackFrag { .. } => "NackFrag",
            Item::Other(_) => "other",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Context {
    pub version: (u8, u8),
    pub vendor: [u8; 2],
    pub prefix: [u8; 12],
    pub dest: [u8; 12],
    pub uni: Vec<Loc>,
    pub multi: Vec<Loc>,
    pub ts: Option<(i32, u32)>,
}
impl Context {
    pub fn initial(locator_kind: i32) -> Context {
        let l = Loc { kind: locator_kind, ..INVALID_LOC };
        Context { version: (2, 4), vendor: [0; 2], prefix: [0; 12], dest: [0; 12], uni: vec![l.clone()], multi: vec![l], ts: None }
    }
    /// None if equal, else what differs
    pub fn diff(&self, got: &Context) -> Option<String> {
        let mut d = vec![];
        if self.version != got.version {
            d.push(format!("source version: expected {:?}, got {:?}", self.version, got.version));
        }
        if self.vendor != got.vendor {
            d.push(format!("source vendor: expected {:?}, got {:?}", self.vendor, got.vendor));
        }
        if self.prefix != got.prefix {
            d.push(format!("source prefix: expected {:02x?}, got {:02x?}", self.prefix, got.prefix));
        }
        if self.dest != got.dest {
            d.push(format!("destination prefix: expected {:02x?}, got {:02x?}", self.dest, got.dest));
        }
        if let Some(x) = locs_diff(&self.uni, &got.uni) {
            d.push(format!("unicast reply locators: {x}"));
        }
        if let Some(x) = locs_diff(&self.multi, &got.multi) {
            d.push(format!("multicast reply locators: {x}"));
        }
        if self.ts != got.ts {
            d.push(format!("timestamp: expected {:?}, got {:?}", self.ts, got.ts));
        }
        if d.is_empty() { None } else { Some(d.join("; ")) }
    }
}
pub fn locs_diff(exp: &[Loc], got: &[Loc]) -> Option<String> {
    if exp.len() != got.len() {
        return Some(format!("expected {} locators, got {}", exp.len(), got.len()));
    }
    for (i, (e, g)) in exp.iter().zip(got).enumerate() {
        if !e.same(g) {
            return Some(format!("#{i}: expected {e:?}, got {g:?}"));
        }
    }
    None
}

// ---------------------------------------------------------------- encoding

pub struct Enc {
    pub le: bool,
    pub b: Vec<u8>,
}
impl Enc {
    pub fn new(le: bool) -> Enc {
        Enc { le, b: vec![] }
    }
    pub fn u8(&mut self, x: u8) -> &mut Self {
        self.b.push(x);
        self
    }
    pub fn u16(&mut self, x: u16) -> &mut Self {
        self.b.extend(if self.le { x.to_le_bytes() } else { x.to_be_bytes() });
        self
    }
    pub fn u32(&mut self, x: u32) -> &mut Self {
        self.b.extend(if self.le { x.to_le_bytes() } else { x.to_be_bytes() });
        self
    }
    pub fn i32(&mut self, x: i32) -> &mut Self {
        self.u32(x as u32)
    }
    /// high word (signed) first, each word in the chosen byte order
    pub fn sn(&mut self, x: i64) -> &mut Self {
        self.i32((x >> 32) as i32).u32(x as u32)
    }
    pub fn raw(&mut self, x: &[u8]) -> &mut Self {
        self.b.extend_from_slice(x);
        self
    }
    pub fn loc(&mut self, l: &Loc) -> &mut Self {
        self.i32(l.kind).u32(l.port).raw(&l.addr)
    }
    pub fn locs(&mut self, l: &[Loc]) -> &mut Self {
        self.u32(l.len() as u32);
        for x in l {
            self.loc(x);
        }
        self
    }
    /// Bit `i` of the set is bit `i % 32` (from the least significant) of word
    /// `i / 32`: the order this code base uses (see C23 about the standard).
    pub fn bits(&mut self, nbits: u32, words: &[u32]) -> &mut Self {
        self.u32(nbits);
        for w in words {
            self.u32(*w);
        }
        self
    }
}

pub fn header_bytes(version: (u8, u8), vendor: [u8; 2], prefix: [u8; 12]) -> Vec<u8> {
    let mut b = b"RTPS".to_vec();
    b.extend([version.0, version.1]);
    b.extend(vendor);
    b.extend(prefix);
    b
}
pub fn frame(kind: u8, flags: u8, len: u16, body: &[u8]) -> Vec<u8> {
    let mut e = Enc::new(flags & 1 == 1);
    e.u8(kind).u8(flags).u16(len).raw(body);
    e.b
}

pub const PAD: u8 = 0x01;
pub const ACKNACK: u8 = 0x06;
pub const HEARTBEAT: u8 = 0x07;
pub const GAP: u8 = 0x08;
pub const INFO_TS: u8 = 0x09;
pub const INFO_SRC: u8 = 0x0c;
pub const INFO_REPLY_IP4: u8 = 0x0d;
pub const INFO_DST: u8 = 0x0e;
pub const INFO_REPLY: u8 = 0x0f;
pub const NACK_FRAG: u8 = 0x12;
pub const HEARTBEAT_FRAG: u8 = 0x13;
pub const DATA: u8 = 0x15;
pub const DATA_FRAG: u8 = 0x16;
pub const ENTITY_KINDS: [u8; 5] = [ACKNACK, HEARTBEAT, GAP, NACK_FRAG, HEARTBEAT_FRAG];
pub const INFO_KINDS: [u8; 5] = [INFO_TS, INFO_SRC, INFO_REPLY_IP4, INFO_DST, INFO_REPLY];
pub fn known_kind(k: u8) -> bool {
    k == PAD || k == DATA || k == DATA_FRAG || ENTITY_KINDS.contains(&k) || INFO_KINDS.contains(&k)
}
pub fn kind_name(k: u8) -> &'static str {
    match k {
        PAD => "PAD",
        ACKNACK => "ACKNACK",
        HEARTBEAT => "HEARTBEAT",
        GAP => "GAP",
        INFO_TS => "INFO_TS",
        INFO_SRC => "INFO_SRC",
        INFO_REPLY_IP4 => "INFO_REPLY_IP4",
        INFO_DST => "INFO_DST",
        INFO_REPLY => "INFO_REPLY",
        NACK_FRAG => "NACK_FRAG",
        HEARTBEAT_FRAG => "HEARTBEAT_FRAG",
        DATA => "DATA",
        DATA_FRAG => "DATA_FRAG",
        _ => "unknown",
    }
}

// -------------------------------------------------------------- generation

/// What a submessage means.
#[derive(Clone, Debug, PartialEq)]
pub enum Eff {
    Deliver(Item),
    Ts(Option<(i32, u32)>),
    Src { version: (u8, u8), vendor: [u8; 2], prefix: [u8; 12] },
    Dst([u8; 12]),
    Reply { uni: Vec<Loc>, multi: Vec<Loc> },
    Nothing,
}
pub fn apply(ctx: &mut Context, eff: &Eff) {
    match eff {
        Eff::Ts(t) => ctx.ts = *t,
        Eff::Src { version, vendor, prefix } => {
            ctx.version = *version;
            ctx.vendor = *vendor;
            ctx.prefix = *prefix;
            ctx.uni = vec![INVALID_LOC];
            ctx.multi = vec![INVALID_LOC];
            ctx.ts = None;
        }
        // The unknown prefix stands for the receiving participant, which is
        // also what a fresh context holds.
        Eff::Dst(p) => ctx.dest = *p,
        Eff::Reply { uni, multi } => {
            ctx.uni = uni.clone();
            ctx.multi = multi.clone();
        }
        Eff::Deliver(_) | Eff::Nothing => {}
    }
}

#[derive(Clone, Debug)]
pub struct Sub {
    pub kind: u8,
    pub flags: u8,
    /// length that the contents of this kind need
    pub need: usize,
    pub body: Vec<u8>,
    pub last: bool,
    pub eff: Eff,
}
impl Sub {
    pub fn bytes(&self) -> Vec<u8> {
        frame(self.kind, self.flags, if self.last { 0 } else { self.body.len() as u16 }, &self.body)
    }
    pub fn le(&self) -> bool {
        self.flags & 1 == 1
    }
}

#[derive(Clone, Debug)]
pub struct Message {
    pub version: (u8, u8),
    pub vendor: [u8; 2],
    pub prefix: [u8; 12],
    pub subs: Vec<Sub>,
}
impl Message {
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = header_bytes(self.version, self.vendor, self.prefix);
        for s in &self.subs {
            b.extend(s.bytes());
        }
        b
    }
    pub fn header_ctx(&self, locator_kind: i32) -> Context {
        Context { version: self.version, vendor: self.vendor, prefix: self.prefix, ..Context::initial(locator_kind) }
    }
    /// items with the context each is delivered in, and the final context
    pub fn meaning(&self, locator_kind: i32) -> (Vec<(Item, Context)>, Context) {
        let mut ctx = self.header_ctx(locator_kind);
        let mut out = vec![];
        for s in &self.subs {
            apply(&mut ctx, &s.eff);
            if let Eff::Deliver(i) = &s.eff {
                out.push((i.clone(), ctx.clone()));
            }
        }
        (out, ctx)
    }
    pub fn describe(&self) -> String {
        let v: Vec<String> = self
            .subs
            .iter()
            .map(|s| format!("{}({:#04x}){}{}b{}", kind_name(s.kind), s.kind, if s.le() { "le" } else { "be" }, s.body.len(), if s.last { " last" } else { "" }))
            .collect();
        format!("v{}.{} [{}]", self.version.0, self.version.1, v.join(" "))
    }
}

#[derive(Clone)]
pub struct Opts {
    pub unknown: bool,
    pub surplus: bool,
    /// also long skipped regions and locator lists
    pub big: bool,
    pub wild_ports: bool,
    /// probability in percent of an entity submessage
    pub entity: u64,
}
pub const OPTS: Opts = Opts { unknown: true, surplus: true, big: false, wild_ports: false, entity: 50 };

pub fn gen_flags(r: &mut Rng) -> u8 {
    match r.below(4) {
        0 => r.u8() & 1,
        1 => r.u8() & 3,
        _ => r.u8(),
    }
}
pub fn gen_prefix(r: &mut Rng) -> [u8; 12] {
    r.arr()
}
pub fn gen_loc(r: &mut Rng) -> Loc {
    let kind = *r.pick(&[-1, 0, 1, 1, 2, 2]);
    Loc { kind, port: r.u32v(), addr: r.arr(), wild_port: false }
}
/// base, offsets of the marked bits, nbits, words (with stray bits)
pub struct GSet {
    pub base: i128,
    pub members: Vec<i128>,
    pub nbits: u32,
    pub words: Vec<u32>,
}
pub fn gen_set(r: &mut Rng, lo: i128, hi: i128) -> GSet {
    let base = match r.below(4) {
        0 => hi - r.below(300) as i128,
        1 => 1 + r.below(1000) as i128,
        _ => r.int(lo, hi),
    };
    let nbits = match r.below(6) {
        0 => 0,
        1 => 256,
        2 => *r.pick(&[1, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 160, 192, 224, 225, 255]),
        _ => r.below(257) as u32,
    };
    let nw = nbits.div_ceil(32) as usize;
    let mut words = vec![0u32; nw];
    match r.below(6) {
        0 => {}
        1 => words.iter_mut().for_each(|w| *w = u32::MAX),
        2 => {
            if nbits > 0 {
                let i = r.below(nbits as u64) as usize;
                words[i / 32] |= 1 << (i % 32);
            }
        }
        3 => {
            if nbits > 0 {
                for i in [0, nbits - 1] {
                    words[i as usize / 32] |= 1 << (i % 32);
                }
            }
        }
        4 => words.iter_mut().for_each(|w| *w = r.u32() & r.u32() & r.u32()),
        _ => words.iter_mut().for_each(|w| *w = r.u32()),
    }
    if r.chance(2, 3) && nbits % 32 != 0 {
        // tidy: no stray bits
        words[nw - 1] &= (1u32 << (nbits % 32)) - 1;
    }
    let members = set_members(base, hi, nbits, &words);
    GSet { base, members, nbits, words }
}
pub fn set_members(base: i128, hi: i128, nbits: u32, words: &[u32]) -> Vec<i128> {
    let mut m = vec![];
    for i in 0..nbits.min(256) {
        if words[i as usize / 32] >> (i % 32) & 1 == 1 && base + i as i128 <= hi {
            m.push(base + i as i128);
        }
    }
    m
}

pub fn gen_sub(r: &mut Rng, o: &Opts) -> Sub {
    let kind = if r.below(100) < o.entity {
        *r.pick(&ENTITY_KINDS)
    } else {
        match r.below(12) {
            0 => PAD,
            1 | 2 if o.unknown => gen_unknown_kind(r),
            _ => *r.pick(&INFO_KINDS),
        }
    };
    gen_sub_kind(r, kind, o)
}
pub fn gen_unknown_kind(r: &mut Rng) -> u8 {
    loop {
        let k = if r.bool() { r.u8() } else { 0x80 | r.u8() };
        if !known_kind(k) {
            return k;
        }
    }
}
pub fn gen_sub_kind(r: &mut Rng, kind: u8, o: &Opts) -> Sub {
    let flags = gen_flags(r);
    gen_sub_flags(r, kind, flags, o)
}
pub fn gen_sub_flags(r: &mut Rng, kind: u8, flags: u8, o: &Opts) -> Sub {
    let le = flags & 1 == 1;
    let mut e = Enc::new(le);
    let (ids, idw): ([u8; 4], [u8; 4]) = (r.arr(), r.arr());
    let eff = match kind {
        ACKNACK => {
            let s = gen_set(r, i64::MIN as i128, i64::MAX as i128);
            let count = r.i32v();
            e.raw(&ids).raw(&idw).sn(s.base as i64).bits(s.nbits, &s.words).i32(count);
            Eff::Deliver(Item::AckNack { reader: ids, writer: idw, base: s.base as i64, members: s.members.iter().map(|x| *x as i64).collect(), count, flags })
        }
        GAP => {
            let s = gen_set(r, i64::MIN as i128, i64::MAX as i128);
            let start = r.i64v();
            e.raw(&ids).raw(&idw).sn(start).sn(s.base as i64).bits(s.nbits, &s.words);
            Eff::Deliver(Item::Gap { reader: ids, writer: idw, start, base: s.base as i64, members: s.members.iter().map(|x| *x as i64).collect() })
        }
        HEARTBEAT => {
            let (first, last, count) = (r.i64v(), r.i64v(), r.i32v());
            e.raw(&ids).raw(&idw).sn(first).sn(last).i32(count);
            Eff::Deliver(Item::Heartbeat { reader: ids, writer: idw, first, last, count, flags })
        }
        HEARTBEAT_FRAG => {
            let (sn, last_frag, count) = (r.i64v(), r.u32v(), r.i32v());
            e.raw(&ids).raw(&idw).sn(sn).u32(last_frag).i32(count);
            Eff::Deliver(Item::HeartbeatFrag { reader: ids, writer: idw, sn, last_frag, count })
        }
        NACK_FRAG => {
            let s = gen_set(r, 0, u32::MAX as i128);
            let (sn, count) = (r.i64v(), r.i32v());
            e.raw(&ids).raw(&idw).sn(sn).u32(s.base as u32).bits(s.nbits, &s.words).i32(count);
            Eff::Deliver(Item::NackFrag { reader: ids, writer: idw, sn, base: s.base as u32, members: s.members.iter().map(|x| *x as u32).collect(), count })
        }
        INFO_TS => {
            if flags & 2 != 0 {
                Eff::Ts(None)
            } else {
                let (s, f) = match r.below(4) {
                    0 => *r.pick(&[(-1, u32::MAX), (0, 0), (i32::MAX, u32::MAX), (i32::MAX, 0), (-1, 0), (i32::MIN, 0)]),
                    _ => (r.i32v(), r.u32v()),
                };
                e.i32(s).u32(f);
                Eff::Ts(Some((s, f)))
            }
        }
        INFO_SRC => {
            let version = (r.u8(), r.u8());
            let vendor = r.arr();
            let prefix = r.arr();
            e.u8(version.0).u8(version.1).raw(&vendor).raw(&prefix);
            Eff::Src { version, vendor, prefix }
        }
        INFO_DST => {
            let p: [u8; 12] = r.arr();
            e.raw(&p);
            Eff::Dst(p)
        }
        INFO_REPLY => {
            let list = |r: &mut Rng| -> Vec<Loc> {
                let n = match r.below(8) {
                    0 => 0,
                    1 if o.big => *r.pick(&[100, 1000, 1360]),
                    2 => r.range(3, 9),
                    _ => 1 + r.usize(2),
                };
                (0..n).map(|_| gen_loc(r)).collect()
            };
            let uni = list(r);
            e.locs(&uni);
            let multi = if flags & 2 != 0 {
                let m = list(r);
                e.locs(&m);
                m
            } else {
                vec![]
            };
            Eff::Reply { uni, multi }
        }
        INFO_REPLY_IP4 => {
            let one = |r: &mut Rng, e: &mut Enc| {
                let a: [u8; 4] = match r.below(5) {
                    0 => [0; 4],
                    1 => [127, 0, 0, 1],
                    2 => [239, 255, 0, 1],
                    _ => r.arr(),
                };
                let port = if o.wild_ports && r.chance(1, 3) { r.u32v() } else { r.u16v() as u32 };
                e.u32(u32::from_be_bytes(a)).u32(port);
                ip4_loc(a, port)
            };
            let uni = vec![one(r, &mut e)];
            let multi = if flags & 2 != 0 { vec![one(r, &mut e)] } else { vec![] };
            Eff::Reply { uni, multi }
        }
        PAD => Eff::Nothing,
        _ => Eff::Nothing,
    };
    let need = e.b.len();
    let mut body = e.b;
    let skipping = kind == PAD || !known_kind(kind) || (kind == INFO_TS && flags & 2 != 0);
    if skipping || (o.surplus && r.chance(1, 6)) {
        let n = match r.below(8) {
            0 if skipping => 0,
            1 => r.range(1, 3),
            2 if o.big && body.len() < 60000 => r.range(300, 65535 - body.len()),
            3 => r.range(8, 40),
            _ => 4 * r.range(0, 8),
        };
        let junk = gen_junk(r, n, flags & 1 == 1);
        body.extend(junk);
    }
    if body.is_empty() && kind != PAD && kind != INFO_TS {
        // zero would mean "last submessage"
        body.push(0);
    }
    Sub { kind, flags, need, body, last: false, eff }
}
/// About so many bytes that are to be skipped; often they look like something
/// meaningful.
pub fn gen_junk(r: &mut Rng, n: usize, le: bool) -> Vec<u8> {
    match r.below(6) {
        0 => {
            let mut v = vec![];
            while v.len() < n {
                let k = *r.pick(&[ACKNACK, HEARTBEAT, INFO_DST, INFO_TS, INFO_SRC, PAD]);
                let f = r.u8();
                let inner = if r.bool() { r.bytes(12) } else { vec![] };
                v.extend(frame(k, f, inner.len() as u16, &inner));
            }
            v.truncate(n);
            v
        }
        1 => {
            let mut v = header_bytes((2, 1), [1, 2], [9; 12]);
            v.resize(n.max(20), 0x06);
            v.truncate(n);
            v
        }
        // more of what submessages consist of
        2 if n > 0 => {
            let mut e = Enc::new(le);
            match r.below(5) {
                0 => {
                    let l: Vec<Loc> = (0..r.range(0, 3)).map(|_| gen_loc(r)).collect();
                    e.locs(&l);
                }
                1 => {
                    let a: [u8; 4] = r.arr();
                    let p = r.u16v() as u32;
                    e.u32(u32::from_be_bytes(a)).u32(p);
                }
                2 => {
                    let k = r.below(5) as usize;
                    let w: Vec<u32> = (0..k).map(|_| r.word()).collect();
                    let b = r.i64v();
                    e.sn(b).bits(32 * k as u32, &w).i32(7);
                }
                3 => {
                    let (s, f) = (r.i32v(), r.u32v());
                    e.i32(s).u32(f);
                }
                _ => {
                    e.raw(&r.arr::<12>());
                }
            }
            if r.chance(1, 4) {
                let extra = r.usize(5);
                let x = r.bytes(extra);
                e.raw(&x);
            }
            e.b
        }
        _ => r.bytes(n),
    }
}
pub fn ip4_loc(a: [u8; 4], port: u32) -> Loc {
    let mut addr = [0; 16];
    addr[12..].copy_from_slice(&a);
    Loc { kind: if a == [0; 4] { -1 } else { 1 }, port, addr, wild_port: port > 65535 }
}

pub fn gen_message(r: &mut Rng, o: &Opts, n: usize, end_last: bool) -> Message {
    let mut subs: Vec<Sub> = vec![];
    for _ in 0..n {
        // now and then one comes again
        let s = if !subs.is_empty() && r.chance(1, 12) { r.pick(&subs).clone() } else { gen_sub(r, o) };
        subs.push(s);
    }
    if end_last {
        let mut s = loop {
            let s = gen_sub(r, o);
            if s.kind != PAD && s.kind != INFO_TS {
                break s;
            }
        };
        s.last = true;
        if s.body.len() == 1 && s.need == 0 && r.bool() {
            s.body.clear();
        }
        subs.push(s);
    }
    Message {
        version: (*r.pick(&[2, 2, 2, 1, 0]), r.u8()),
        vendor: r.arr(),
        prefix: r.arr(),
        subs,
    }
}
pub fn gen_count(r: &mut Rng) -> usize {
    match r.below(20) {
        0 => 0,
        1 => 1,
        2..=3 => r.range(20, 60),
        _ => r.range(2, 12),
    }
}

// ------------------------------------------------------- reference decoder

struct Cur<'a> {
    b: &'a [u8],
    le: bool,
}
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.b.len() < n {
            return None;
        }
        let (x, y) = self.b.split_at(n);
        self.b = y;
        Some(x)
    }
    fn arr<const N: usize>(&mut self) -> Option<[u8; N]> {
        self.take(N).map(|x| x.try_into().unwrap())
    }
    fn u32(&mut self) -> Option<u32> {
        let a = self.arr::<4>()?;
        Some(if self.le { u32::from_le_bytes(a) } else { u32::from_be_bytes(a) })
    }
    fn i32(&mut self) -> Option<i32> {
        self.u32().map(|x| x as i32)
    }
    fn sn(&mut self) -> Option<i64> {
        let h = self.i32()? as i64;
        let l = self.u32()? as i64;
        Some((h << 32) | l)
    }
    fn set(&mut self, base: i128, hi: i128) -> Option<Vec<i128>> {
        let n = self.u32()?;
        if n > 256 {
            return None;
        }
        let mut w = vec![];
        for _ in 0..n.div_ceil(32) {
            w.push(self.u32()?);
        }
        Some(set_members(base, hi, n, &w))
    }
    fn locs(&mut self) -> Option<Vec<Loc>> {
        let n = self.u32()? as usize;
        if n > self.b.len() / 24 {
            return None;
        }
        let mut v = vec![];
        for _ in 0..n {
            let kind = self.i32()?;
            if !(-1..=2).contains(&kind) {
                return None;
            }
            v.push(Loc { kind, port: self.u32()?, addr: self.arr()?, wild_port: false });
        }
        Some(v)
    }
    fn ip4(&mut self) -> Option<Loc> {
        let a = self.u32()?;
        Some(ip4_loc(a.to_be_bytes(), self.u32()?))
    }
}

/// Meaning of a submessage body, None if malformed.
pub fn interpret(kind: u8, flags: u8, body: &[u8]) -> Option<Eff> {
    let mut c = Cur { b: body, le: flags & 1 == 1 };
    let hi = i64::MAX as i128;
    Some(match kind {
        ACKNACK => {
            let (reader, writer, base) = (c.arr()?, c.arr()?, c.sn()?);
            let members = c.set(base as i128, hi)?.into_iter().map(|x| x as i64).collect();
            Eff::Deliver(Item::AckNack { reader, writer, base, members, count: c.i32()?, flags })
        }
        GAP => {
            let (reader, writer, start, base) = (c.arr()?, c.arr()?, c.sn()?, c.sn()?);
            let members = c.set(base as i128, hi)?.into_iter().map(|x| x as i64).collect();
            Eff::Deliver(Item::Gap { reader, writer, start, base, members })
        }
        HEARTBEAT => Eff::Deliver(Item::Heartbeat { reader: c.arr()?, writer: c.arr()?, first: c.sn()?, last: c.sn()?, count: c.i32()?, flags }),
        HEARTBEAT_FRAG => Eff::Deliver(Item::HeartbeatFrag { reader: c.arr()?, writer: c.arr()?, sn: c.sn()?, last_frag: c.u32()?, count: c.i32()? }),
        NACK_FRAG => {
            let (reader, writer, sn, base) = (c.arr()?, c.arr()?, c.sn()?, c.u32()?);
            let members = c.set(base as i128, u32::MAX as i128)?.into_iter().map(|x| x as u32).collect();
            Eff::Deliver(Item::NackFrag { reader, writer, sn, base, members, count: c.i32()? })
        }
        INFO_TS => {
            if flags & 2 != 0 {
                Eff::Ts(None)
            } else {
                Eff::Ts(Some((c.i32()?, c.u32()?)))
            }
        }
        INFO_SRC => Eff::Src { version: (c.arr::<1>()?[0], c.arr::<1>()?[0]), vendor: c.arr()?, prefix: c.arr()? },
        INFO_DST => Eff::Dst(c.arr()?),
        INFO_REPLY => {
            let uni = c.locs()?;
            Eff::Reply { uni, multi: if flags & 2 != 0 { c.locs()? } else { vec![] } }
        }
        INFO_REPLY_IP4 => {
            let uni = vec![c.ip4()?];
            Eff::Reply { uni, multi: if flags & 2 != 0 { vec![c.ip4()?] } else { vec![] } }
        }
        _ => Eff::Nothing,
    })
}

#[derive(Clone)]
pub struct Ref {
    pub in_message: bool,
    pub ctx: Context,
    pub locator_kind: i32,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    /// nothing more can be done with these bytes
    NeedMore,
    /// consumed that many
    Silent(usize),
    Item(usize, Item),
    BadHeader(usize),
    BadSub(usize),
    /// a kind this code base does not implement
    Data,
}
impl Ref {
    pub fn new(locator_kind: i32) -> Ref {
        Ref { in_message: false, ctx: Context::initial(locator_kind), locator_kind }
    }
    /// Handles one header or submessage at the start of `b`.
    pub fn step(&mut self, b: &[u8]) -> Step {
        if !self.in_message {
            if b.len() < 20 {
                return Step::NeedMore;
            }
            if &b[..4] != b"RTPS" || b[4] > 2 {
                return Step::BadHeader(20);
            }
            self.ctx = Context {
                version: (b[4], b[5]),
                vendor: [b[6], b[7]],
                prefix: b[8..20].try_into().unwrap(),
                ..Context::initial(self.locator_kind)
            };
            self.in_message = true;
            return Step::Silent(20);
        }
        if b.len() < 4 {
            return Step::NeedMore;
        }
        let (kind, flags) = (b[0], b[1]);
        let len = if flags & 1 == 1 { u16::from_le_bytes([b[2], b[3]]) } else { u16::from_be_bytes([b[2], b[3]]) } as usize;
        let last = len == 0 && kind != PAD && kind != INFO_TS;
        let total = if last { b.len() } else { 4 + len };
        if b.len() < total {
            return Step::NeedMore;
        }
        if kind == DATA || kind == DATA_FRAG {
            return Step::Data;
        }
        if last {
            self.in_message = false;
        }
        match interpret(kind, flags, &b[4..total]) {
            None => Step::BadSub(total),
            Some(Eff::Deliver(i)) => Step::Item(total, i),
            Some(e) => {
                apply(&mut self.ctx, &e);
                Step::Silent(total)
            }
        }
    }
}
