//! C12 to C17: number sets, numbers, locators, times, durations, parameters.
use crate::ensure;
use crate::real::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, FromPrimitive, ToPrimitive};
use rtps_rs::verif_hooks as v;
use speedy::{Endianness, Readable, Writable};
use std::collections::BTreeSet;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

// ------------------------------------------------------------------- C12

/// The two kinds of numbers sets are made of.
pub trait Num:
    Copy + std::fmt::Debug + PartialEq + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + ToPrimitive + FromPrimitive + Ord + Hash + Default
    + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> + std::ops::Div<Output = Self>
    + std::ops::Rem<Output = Self> + Writable<Endianness> + for<'a> Readable<'a, Endianness>
{
    const LO: i128;
    const HI: i128;
    const NAME: &'static str;
    fn mk(x: i128) -> Self;
    fn val(&self) -> i128;
    fn put(e: &mut Enc, x: i128);
}
impl Num for v::SequenceNumber_t {
    const LO: i128 = i64::MIN as i128;
    const HI: i128 = i64::MAX as i128;
    const NAME: &'static str = "SequenceNumber_t";
    fn mk(x: i128) -> Self {
        mk_sn(x as i64)
    }
    fn val(&self) -> i128 {
        sn(self) as i128
    }
    fn put(e: &mut Enc, x: i128) {
        e.sn(x as i64);
    }
}
impl Num for v::FragmentNumber_t {
    const LO: i128 = 0;
    const HI: i128 = u32::MAX as i128;
    const NAME: &'static str = "FragmentNumber_t";
    fn mk(x: i128) -> Self {
        v::FragmentNumber_t::from(x as u32)
    }
    fn val(&self) -> i128 {
        frag(self) as i128
    }
    fn put(e: &mut Enc, x: i128) {
        e.u32(x as u32);
    }
}

struct Model {
    base: i128,
    hi: i128,
    set: BTreeSet<i128>,
}
impl Model {
    fn insert(&mut self, x: i128) -> bool {
        x >= self.base && x <= self.base + 255 && x <= self.hi && self.set.insert(x)
    }
    /// numbers around the window, the ends of the range, and repeats
    fn pick(&self, r: &mut Rng, lo: i128) -> i128 {
        let x = match r.below(8) {
            0 => self.base + *r.pick(&[-257i128, -256, -255, -2, -1, 0, 1, 31, 32, 33, 63, 64, 127, 128, 254, 255, 256, 257, 258, 511, 512]),
            1 => r.int(lo, self.hi),
            2 if !self.set.is_empty() => *self.set.iter().nth(r.usize(self.set.len())).unwrap(),
            3 => self.base + (1i128 << r.below(64)) * if r.bool() { 1 } else { -1 } + r.below(300) as i128,
            4 => self.base + r.below(40) as i128,
            _ => self.base + r.below(256) as i128,
        };
        x.clamp(lo, self.hi)
    }
}

fn insert_some<N: Num>(c: &mut Case, s: &mut v::RangedBitSet<N>, m: &mut Model, n: usize) -> Verdict {
    for _ in 0..n {
        let x = m.pick(&mut c.rng, N::LO);
        let had = m.set.contains(&x);
        let want = m.insert(x);
        let got = s.insert(N::mk(x));
        c.note(|| format!("insert {x} -> {got}"));
        // An insertion is reported as new exactly once.
        ensure!(got == want, "inserting {x} into a set with base {} {}gave {got}, expected {want}", m.base, if had { "(again) " } else { "" });
        c.count(if want { "inserted" } else if had { "repeated" } else { "rejected" }, 1);
    }
    Ok(())
}
/// Encodes, checks what the encoding means, decodes again.
fn through_wire<N: Num>(c: &mut Case, s: &v::RangedBitSet<N>, m: &Model) -> Result<v::RangedBitSet<N>, Bad>
where
    v::RangedBitSet<N>: Writable<Endianness> + for<'a> Readable<'a, Endianness>,
{
    let le = c.rng.bool();
    let b = write(le, s);
    let mut e = Enc::new(le);
    N::put(&mut e, m.base);
    let at = e.b.len();
    let rd = |i: usize| {
        b.get(i..i + 4).map(|x| {
            let a: [u8; 4] = x.try_into().unwrap();
            if le { u32::from_le_bytes(a) } else { u32::from_be_bytes(a) }
        })
    };
    ensure!(b.len() >= at + 4 && b[..at] == e.b[..], "a set with base {} was encoded as {}", m.base, hex(&b));
    let nbits = rd(at).unwrap();
    ensure!(nbits <= 256 && b.len() == at + 4 + 4 * nbits.div_ceil(32) as usize, "a set of {} numbers was encoded with {nbits} bits: {}", m.set.len(), hex(&b));
    let mut members = BTreeSet::new();
    for i in 0..8 * (b.len() - at - 4) as u32 {
        if rd(at + 4 + 4 * (i as usize / 32)).unwrap() >> (i % 32) & 1 == 1 {
            ensure!(i < nbits, "bit {i} of {nbits} is marked in the encoding {}", hex(&b));
            let x = m.base + i as i128;
            ensure!(x <= m.hi, "the encoding {} marks a number beyond the largest one", hex(&b));
            members.insert(x);
        }
    }
    ensure!(members == m.set, "a set (base {}) holding {:?} was encoded (little endian: {le}) as {}, which marks {:?}", m.base, m.set, hex(&b), members);
    c.count("encoded", 1);
    match v::RangedBitSet::<N>::read_from_buffer_with_ctx(end(le), &b) {
        Ok(t) => {
            ensure!(t == *s, "a set (base {}) holding {:?} is not equal to itself after encoding and decoding: {t:?}", m.base, m.set);
            Ok(t)
        }
        Err(x) => bad(format!("the encoding {} of a set cannot be decoded: {x}", hex(&b))),
    }
}
fn iterate<N: Num>(c: &mut Case, s: v::RangedBitSet<N>, m: &Model) -> Verdict {
    let want: Vec<i128> = m.set.iter().copied().collect();
    let mut it = s.into_iter();
    let mut got = vec![];
    while let Some(x) = it.next() {
        got.push(x.val());
        if got.len() > 600 {
            break;
        }
    }
    ensure!(got == want, "iterating a set with base {} gave {got:?}, its members are {want:?}", m.base);
    for _ in 0..3 {
        ensure!(it.next().is_none(), "the iteration of a set with base {} resumed after its end", m.base);
    }
    c.count("iterated_members", got.len() as u64);
    c.count("iterations", 1);
    Ok(())
}
fn sig<N: Num>(c: &mut Case, m: &Model) {
    let s = format!("{}{}{:?}", N::NAME, m.base, m.set);
    c.nontrivial(s.as_bytes());
}

fn c12_local<N: Num>(c: &mut Case) -> Verdict
where
    v::RangedBitSet<N>: Writable<Endianness> + for<'a> Readable<'a, Endianness>,
{
    let base = match c.rng.below(4) {
        0 => N::HI - c.rng.below(300) as i128,
        1 => 1 + c.rng.below(300) as i128,
        2 => (N::LO + c.rng.below(300) as i128).max(N::LO),
        _ => c.rng.int(N::LO, N::HI),
    };
    let mut m = Model { base, hi: N::HI, set: BTreeSet::new() };
    let mut s = v::RangedBitSet::new(N::mk(base));
    c.note(|| format!("{} base {base}", N::NAME));
    let n = *c.rng.pick(&[0usize, 1, 2, 5, 20, 80]);
    insert_some(c, &mut s, &mut m, n)?;
    for _ in 0..c.rng.below(3) {
        s = through_wire(c, &s, &m)?;
        if c.rng.bool() {
            let n = c.rng.usize(30);
            insert_some(c, &mut s, &mut m, n)?;
        }
    }
    sig::<N>(c, &m);
    c.sample(|| format!("{} base {base}: {:?}", N::NAME, m.set));
    iterate(c, s, &m)
}

fn decode_set<N: Num>(c: &mut Case, base: i128, nbits: u32, words: &[u32]) -> Result<(v::RangedBitSet<N>, Model), Bad>
where
    v::RangedBitSet<N>: for<'a> Readable<'a, Endianness>,
{
    let le = c.rng.bool();
    let mut e = Enc::new(le);
    N::put(&mut e, base);
    e.bits(nbits, words);
    c.note(|| format!("received {} (little endian {le})", hex(&e.b)));
    let set: BTreeSet<i128> = set_members(base, N::HI, nbits, words).into_iter().collect();
    match v::RangedBitSet::<N>::read_from_buffer_with_ctx(end(le), &e.b) {
        Ok(s) => Ok((s, Model { base, hi: N::HI, set })),
        Err(x) => bad(format!("a set of {nbits} bits cannot be decoded from {}: {x}", hex(&e.b))),
    }
}
fn c12_received<N: Num>(c: &mut Case) -> Verdict
where
    v::RangedBitSet<N>: Writable<Endianness> + for<'a> Readable<'a, Endianness>,
{
    let g = gen_set(&mut c.rng, N::LO, N::HI);
    let (mut s, mut m) = decode_set::<N>(c, g.base, g.nbits, &g.words)?;
    let tidy = g.words.iter().map(|w| w.count_ones() as usize).sum::<usize>() == m.set.len();
    c.count(if tidy { "received_tidy" } else { "received_with_stray_bits" }, 1);
    let mut extended = false;
    // Bits for positions past the largest number mean nothing, but an
    // encoder may well keep them; only tidy sets go out again.
    for _ in 0..c.rng.below(3) {
        if c.rng.bool() {
            extended = true;
            let n = 1 + c.rng.usize(20);
            insert_some(c, &mut s, &mut m, n)?;
        }
        if g.base + 255 <= N::HI && c.rng.bool() {
            s = through_wire(c, &s, &m)?;
        }
    }
    if extended {
        c.count("extended_after_decoding", 1);
    }
    sig::<N>(c, &m);
    iterate(c, s, &m)
}

pub fn c12(x: &Ctx) {
    x.cases("local sequence numbers", 30_000, c12_local::<v::SequenceNumber_t>);
    x.cases("local fragment numbers", 20_000, c12_local::<v::FragmentNumber_t>);
    x.cases("received sequence numbers", 60_000, c12_received::<v::SequenceNumber_t>);
    x.cases("received fragment numbers", 40_000, c12_received::<v::FragmentNumber_t>);
    // every bit count; a pattern each, with and without stray bits
    x.sweep("all bit counts", 257 * 6, |c| {
        let nbits = (c.idx % 257) as u32;
        let style = c.idx / 257;
        let words: Vec<u32> = (0..nbits.div_ceil(32))
            .map(|_| match style {
                0 => u32::MAX,
                1 => 0,
                2 => 0x8000_0001,
                3 => 0x5555_5555,
                4 => 0xaaaa_aaaa,
                _ => c.rng.u32(),
            })
            .collect();
        let base = *c.rng.pick(&[1i128, 0, 1000, u32::MAX as i128 - 255, u32::MAX as i128 - 100, u32::MAX as i128]);
        // the whole window offered to a received set
        let (mut s, mut m) = decode_set::<v::SequenceNumber_t>(c, base, nbits, &words)?;
        let (mut f, mut mf) = decode_set::<v::FragmentNumber_t>(c, base, nbits, &words)?;
        if c.rng.bool() {
            for i in 0..258 {
                let k = base + if c.idx % 2 == 0 { i } else { 257 - i } - 1;
                let want = m.insert(k);
                let got = s.insert(mk_sn(k as i64));
                ensure!(got == want, "inserting {k} into a received set (base {base}, {nbits} bits) gave {got}, expected {want}");
                if (0..=u32::MAX as i128).contains(&k) {
                    let want = mf.insert(k);
                    let got = f.insert(v::FragmentNumber_t::from(k as u32));
                    ensure!(got == want, "inserting {k} into a received fragment set (base {base}, {nbits} bits) gave {got}, expected {want}");
                }
            }
            c.count("extended_after_decoding", 2);
        }
        sig::<v::SequenceNumber_t>(c, &m);
        iterate(c, s, &m)?;
        iterate(c, f, &mf)
    });
    // every single number of (and just around) a window, at telling bases
    x.sweep("all offsets", 8 * 300, |c| {
        let off = (c.idx % 300) as i128 - 20;
        let k = c.idx / 300;
        fn one<N: Num>(c: &mut Case, base: i128, x: i128) -> Verdict
        where
            v::RangedBitSet<N>: Writable<Endianness> + for<'a> Readable<'a, Endianness>,
        {
            if x < N::LO || x > N::HI || base < N::LO || base > N::HI {
                return Ok(());
            }
            let mut m = Model { base, hi: N::HI, set: BTreeSet::new() };
            let mut s = v::RangedBitSet::new(N::mk(base));
            for again in [false, true] {
                let want = m.insert(x);
                let got = s.insert(N::mk(x));
                ensure!(got == want, "inserting {x} into a set with base {base} (again: {again}) gave {got}");
            }
            let s = through_wire(c, &s, &m)?;
            iterate(c, s, &m)
        }
        let sb = [1i128, 0, -1, i64::MIN as i128, i64::MAX as i128, i64::MAX as i128 - 255, -128, u32::MAX as i128][k as usize];
        one::<v::SequenceNumber_t>(c, sb, sb + off)?;
        let fb = [1i128, 0, 100, u32::MAX as i128, u32::MAX as i128 - 255, u32::MAX as i128 - 254, 1 << 31, 65536][k as usize];
        one::<v::FragmentNumber_t>(c, fb, fb + off)?;
        c.nontrivial_u64(c.idx);
        Ok(())
    });
    for w in ["inserted", "repeated", "rejected", "encoded", "received_tidy", "received_with_stray_bits", "extended_after_decoding", "iterated_members"] {
        x.require(w, 100 * x.scale.min(100) / 100);
    }
}

// ------------------------------------------------------------------- C13

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn arith<N: Num>(c: &mut Case, a: i128, b: i128) -> Verdict {
    let (x, y) = (N::mk(a), N::mk(b));
    ensure!(x.val() == a && y.val() == b, "{} made from {a}, {b} holds {}, {}", N::NAME, x.val(), y.val());
    let fit = |r: i128| if (N::LO..=N::HI).contains(&r) { Some(r) } else { None };
    let exp = [
        ("+", fit(a + b), x.checked_add(&y), 0),
        ("-", fit(a - b), x.checked_sub(&y), 1),
        ("*", fit(a * b), x.checked_mul(&y), 2),
        ("/", if b == 0 { None } else { fit(a / b) }, x.checked_div(&y), 3),
    ];
    for (op, want, got, k) in exp {
        let got = got.map(|g| g.val());
        ensure!(got == want, "{}: checked {a} {op} {b} gave {got:?}, exactly {want:?}", N::NAME);
        if let Some(w) = want {
            let p = match k {
                0 => x + y,
                1 => x - y,
                2 => x * y,
                _ => x / y,
            };
            ensure!(p.val() == w, "{}: {a} {op} {b} gave {}, exactly {w}", N::NAME, p.val());
            c.count("exact_results", 1);
        } else {
            c.count("no_result", 1);
        }
    }
    if b != 0 && fit(a / b).is_some() {
        ensure!((x % y).val() == a % b, "{}: {a} % {b} gave {}", N::NAME, (x % y).val());
    }
    // comparison
    ensure!(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)), "{}: {a} compared with {b} is {:?}", N::NAME, x.cmp(&y));
    ensure!((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b) && (x == y) == (a == b), "{}: comparison operators on {a} and {b}", N::NAME);
    ensure!(x.max(y).val() == a.max(b) && x.min(y).val() == a.min(b), "{}: max or min of {a} and {b}", N::NAME);
    if a == b {
        ensure!(hash_of(&x) == hash_of(&y), "{}: equal numbers {a} hash differently", N::NAME);
    }
    c.count("pairs", 1);
    Ok(())
}
fn convert<N: Num>(c: &mut Case, a: i128) -> Verdict {
    let x = N::mk(a);
    macro_rules! to {
        ($($m:ident $t:ty),*) => { $(
            let want = <$t>::try_from(a).ok();
            let got = x.$m();
            ensure!(got == want, "{}: {a} converted with {} is {got:?}, exactly {want:?}", N::NAME, stringify!($m));
        )* };
    }
    to!(to_i8 i8, to_i16 i16, to_i32 i32, to_i64 i64, to_u8 u8, to_u16 u16, to_u32 u32, to_u64 u64, to_usize usize, to_isize isize, to_i128 i128, to_u128 u128);
    macro_rules! from {
        ($($m:ident $t:ty),*) => { $(
            if let Ok(y) = <$t>::try_from(a) {
                let got = N::$m(y).map(|g| g.val());
                ensure!(got == Some(a), "{}: {a} converted with {} is {got:?}", N::NAME, stringify!($m));
            }
        )* };
    }
    from!(from_i8 i8, from_i16 i16, from_i32 i32, from_i64 i64, from_u8 u8, from_u16 u16, from_u32 u32, from_u64 u64, from_usize usize, from_isize isize);
    // numbers of the other kind must not wrap around on the way in
    let wide = c.rng.int(i64::MIN as i128, u64::MAX as i128);
    let want = if (N::LO..=N::HI).contains(&wide) { Some(wide) } else { None };
    if let Ok(y) = i64::try_from(wide) {
        let got = N::from_i64(y).map(|g| g.val());
        ensure!(got == want, "{}: from_i64({wide}) is {got:?}", N::NAME);
    }
    if let Ok(y) = u64::try_from(wide) {
        let got = N::from_u64(y).map(|g| g.val());
        ensure!(got == want, "{}: from_u64({wide}) is {got:?}", N::NAME);
    }
    c.count("conversions", 24);
    Ok(())
}
fn c13_case<N: Num>(c: &mut Case) -> Verdict {
    for _ in 0..8 {
        let a = c.rng.int(N::LO, N::HI);
        let b = match c.rng.below(6) {
            0 => (a + c.rng.below(5) as i128 - 2).clamp(N::LO, N::HI),
            1 => *c.rng.pick(&[0, 1, 2, N::HI, N::LO, (-1i128).max(N::LO)]),
            // results right at the edge of the range
            2 => (N::HI - a + c.rng.below(3) as i128 - 1).clamp(N::LO, N::HI),
            3 => (N::LO - a + c.rng.below(3) as i128 - 1).clamp(N::LO, N::HI),
            4 if a != 0 => (N::HI / a + c.rng.below(3) as i128 - 1).clamp(N::LO, N::HI),
            _ => c.rng.int(N::LO, N::HI),
        };
        arith::<N>(c, a, b)?;
        convert::<N>(c, a)?;
        c.nontrivial(format!("{}{a},{b}", N::NAME).as_bytes());
        c.sample(|| format!("{}: {a} and {b}", N::NAME));
    }
    Ok(())
}
pub fn c13(x: &Ctx) {
    x.cases("sequence numbers", 80_000, c13_case::<v::SequenceNumber_t>);
    x.cases("fragment numbers", 60_000, c13_case::<v::FragmentNumber_t>);
    // all pairs of telling values
    fn edges(lo: i128, hi: i128) -> Vec<i128> {
        let mut s = BTreeSet::new();
        for p in 0..64u32 {
            for d in -1i128..=1 {
                for sign in [1i128, -1] {
                    s.insert(sign * (1i128 << p) + d);
                }
            }
        }
        s.extend([lo, lo + 1, hi, hi - 1, hi / 2, lo / 2, 3_037_000_499, 3_037_000_500, 65_535, 65_536, 65_537]);
        s.into_iter().filter(|x| (lo..=hi).contains(x)).collect()
    }
    let es = edges(v::SequenceNumber_t::LO, v::SequenceNumber_t::HI);
    x.sweep("all pairs of telling sequence numbers", es.len() as u64, |c| {
        for b in &es {
            arith::<v::SequenceNumber_t>(c, es[c.idx as usize], *b)?;
        }
        c.nontrivial_u64(c.idx);
        convert::<v::SequenceNumber_t>(c, es[c.idx as usize])
    });
    let ef = edges(0, u32::MAX as i128);
    x.sweep("all pairs of telling fragment numbers", ef.len() as u64, |c| {
        for b in &ef {
            arith::<v::FragmentNumber_t>(c, ef[c.idx as usize], *b)?;
        }
        c.nontrivial_u64(c.idx);
        convert::<v::FragmentNumber_t>(c, ef[c.idx as usize])
    });
    x.sweep("first numbers", 4, |c| {
        ensure!(v::SequenceNumber_t::default().val() == 1, "the first sequence number is {:?}", v::SequenceNumber_t::default());
        ensure!(v::FragmentNumber_t::default().val() == 1, "the first fragment number is {:?}", v::FragmentNumber_t::default());
        c.count("first_numbers", 2);
        Ok(())
    });
    x.require("exact_results", 1000 * x.scale.min(100) / 100);
    x.require("no_result", 1000 * x.scale.min(100) / 100);
}

// ------------------------------------------------------------------- C14

pub fn gen_ip(r: &mut Rng) -> IpAddr {
    let v4 = |r: &mut Rng| -> [u8; 4] {
        match r.below(12) {
            0 => [0, 0, 0, 0],
            1 => [127, 0, 0, 1],
            2 => [255, 255, 255, 255],
            3 => [239, 255, 0, 1],
            // the special blocks
            8 => [224 + r.u8() % 32, r.u8(), r.u8(), r.u8()],
            9 => [*r.pick(&[10, 127, 0, 255, 240]), r.u8(), r.u8(), r.u8()],
            10 => {
                let (a, b) = *r.pick(&[(192, 168), (172, 16), (172, 31), (169, 254), (100, 64), (198, 18), (192, 0), (203, 0), (198, 51)]);
                [a, b, r.u8(), r.u8()]
            }
            4 => [0, 0, 0, r.u8()],
            5 => [r.u8(), 0, 0, 0],
            _ => r.arr(),
        }
    };
    if r.bool() {
        return IpAddr::V4(v4(r).into());
    }
    let mut b = [0u8; 16];
    match r.below(10) {
        0 => {}
        1 => b[15] = 1,
        2 => {
            // v4-mapped
            b[10] = 0xff;
            b[11] = 0xff;
            b[12..].copy_from_slice(&v4(r));
        }
        3 => b[12..].copy_from_slice(&v4(r)), // v4-compatible
        4 => {
            b = r.arr();
            b[0] = 0xff;
        }
        5 => {
            b = r.arr();
            b[0] = 0xfe;
            b[1] = 0x80;
        }
        6 => b[r.usize(16)] = r.u8(),
        7 => b = [0xff; 16],
        8 => {
            b = r.arr();
            let p: &[u8] = *r.pick(&[&[0xfc][..], &[0xfd], &[0x20, 0x01, 0x0d, 0xb8], &[0x20, 0x02], &[0, 0x64, 0xff, 0x9b], &[0xff, 0x02], &[0xff, 0x01], &[0x20, 0x01, 0, 0]]);
            b[..p.len()].copy_from_slice(p);
        }
        _ => b = r.arr(),
    }
    IpAddr::V6(b.into())
}
fn unspecified(a: &SocketAddr) -> bool {
    a.ip().is_unspecified() && a.port() == 0
}
fn check_sock(c: &mut Case, ip: IpAddr, port: u16) -> Verdict {
    let a = match ip {
        IpAddr::V6(x) if c.rng.chance(1, 3) => SocketAddr::V6(SocketAddrV6::new(x, port, c.rng.u32(), c.rng.u32())),
        _ => SocketAddr::new(ip, port),
    };
    let l = v::Locator_t::from(a);
    let kind = loc_kind(l.kind);
    if ip.is_unspecified() {
        ensure!(kind == -1, "the unspecified address {a} became the locator {l:?}");
        c.count("unspecified", 1);
        let b = SocketAddr::from(l);
        ensure!(unspecified(&b), "the invalid locator of {a} became the address {b}");
        return Ok(());
    }
    let (want_kind, want_addr) = match ip {
        IpAddr::V4(x) => {
            let mut b = [0u8; 16];
            b[12..].copy_from_slice(&x.octets());
            (1, b)
        }
        IpAddr::V6(x) => (2, x.octets()),
    };
    ensure!(kind == want_kind && l.port == port as u32 && l.address == want_addr, "{a} became the locator {l:?}");
    let b = SocketAddr::from(l);
    ensure!(b.ip() == ip && b.port() == port, "{a} became a locator and then {b}");
    c.count("socket_addresses", 1);
    if let IpAddr::V4(x) = ip {
        check_compact(c, x, port)?;
    }
    Ok(())
}
fn check_compact(c: &mut Case, ip: Ipv4Addr, port: u16) -> Verdict {
    let a = SocketAddrV4::new(ip, port);
    let l = v::LocatorUDPv4_t::from(a);
    let b = write(false, &l);
    ensure!(b == [&ip.octets()[..], &(port as u32).to_be_bytes()].concat(), "{a} became the compact locator {l:?}");
    let full = v::Locator_t::from(v::LocatorUDPv4_t::from(a));
    ensure!(full == v::Locator_t::from(SocketAddr::V4(a)), "{a} as compact locator denotes {full:?}");
    let back = SocketAddrV4::from(l);
    ensure!(back == a, "{a} became a compact locator and then {back}");
    let s = SocketAddr::from(full);
    ensure!(s == SocketAddr::V4(a), "{a} became a compact locator, a full one and then {s}");
    c.count("compact_locators", 1);
    Ok(())
}
fn check_loc(c: &mut Case, l: &Loc) -> Verdict {
    let a = SocketAddr::from(mk_loc(l));
    match l.kind {
        1 | 2 => {
            let ip = if l.kind == 1 { IpAddr::V4(Ipv4Addr::new(l.addr[12], l.addr[13], l.addr[14], l.addr[15])) } else { IpAddr::V6(Ipv6Addr::from(l.addr)) };
            if l.port <= 65535 {
                ensure!(a.ip() == ip, "the locator {l:?} became the address {a}");
                ensure!(a.port() as u32 == l.port, "the locator {l:?} became the address {a}");
                c.count("locators", 1);
            } else {
                ensure!(a.port() == 0, "the locator {l:?}, whose port is no UDP port, became the address {a}");
                c.count("locators_without_valid_port", 1);
            }
            // a locator as an address produces it comes back
            if l.port <= 65535 && !ip.is_unspecified() && (l.kind == 2 || l.addr[..12] == [0; 12]) {
                let again = v::Locator_t::from(a);
                ensure!(loc(&again) == *l, "the locator {l:?} became the address {a} and then {again:?}");
            }
        }
        _ => {
            ensure!(unspecified(&a), "the locator {l:?} became the address {a}");
            c.count("unusable_locators", 1);
        }
    }
    Ok(())
}
fn check_compact_wire(c: &mut Case, ip: [u8; 4], port: u32) -> Verdict {
    let b = [&ip[..], &port.to_be_bytes()].concat();
    let mk = || -> v::LocatorUDPv4_t { read(false, &b) };
    let a = SocketAddrV4::from(mk());
    ensure!(*a.ip() == Ipv4Addr::from(ip), "the compact locator {} became the address {a}", hex(&b));
    let full = v::Locator_t::from(mk());
    let want = ip4_loc(ip, port);
    ensure!(want.same(&loc(&full)), "the compact locator {} denotes {full:?}, expected {want:?}", hex(&b));
    let s = SocketAddr::from(full);
    if port <= 65535 {
        ensure!(a.port() as u32 == port, "the compact locator {} became the address {a}", hex(&b));
        if ip != [0; 4] {
            ensure!(s == SocketAddr::V4(a), "the compact locator {} became the address {a}, in its full form {s}", hex(&b));
        } else {
            ensure!(unspecified(&s), "the compact locator {} became the address {s}", hex(&b));
        }
        c.count("compact_locators", 1);
    } else {
        ensure!(a.port() == 0 && s.port() == 0, "the compact locator {}, whose port is no UDP port, became the address {a} (in full {s})", hex(&b));
        c.count("locators_without_valid_port", 1);
    }
    Ok(())
}
pub fn c14(x: &Ctx) {
    x.sweep("all ports", 65536, |c| {
        let p = c.idx as u16;
        for ip in [
            IpAddr::V4(Ipv4Addr::LOCALHOST),
            IpAddr::V4(Ipv4Addr::new(0, 0, 0, 1)),
            IpAddr::V4(Ipv4Addr::UNSPECIFIED),
            IpAddr::V6(Ipv6Addr::LOCALHOST),
            IpAddr::V6(Ipv6Addr::UNSPECIFIED),
            IpAddr::V6(Ipv4Addr::LOCALHOST.to_ipv6_mapped()),
        ] {
            check_sock(c, ip, p)?;
        }
        let ip = gen_ip(&mut c.rng);
        check_sock(c, ip, p)?;
        // the ports that share these 16 bits
        for hi in [1u32, 2, 0x7fff, 0x8000, 0xffff] {
            let l = Loc { kind: 1 + (p & 1) as i32, port: hi << 16 | p as u32, addr: c.rng.arr(), wild_port: false };
            check_loc(c, &l)?;
        }
        let ip = c.rng.arr();
        let hi = c.rng.u16v() as u32;
        check_compact_wire(c, ip, hi << 16 | p as u32)?;
        check_compact_wire(c, ip, p as u32)?;
        c.nontrivial_u64(c.idx);
        Ok(())
    });
    x.sweep("octets", 16 * 256, |c| {
        let (i, b) = ((c.idx / 256) as usize, c.idx as u8);
        for fill in [0u8, 0xff, 0x0a] {
            let mut a = [fill; 16];
            a[i] = b;
            check_sock(c, IpAddr::V6(a.into()), 7400)?;
            let mut a = [fill; 4];
            a[i % 4] = b;
            check_sock(c, IpAddr::V4(a.into()), 7400 + i as u16)?;
        }
        c.nontrivial_u64(1 << 32 | c.idx);
        Ok(())
    });
    x.cases("addresses", 200_000, |c| {
        let (ip, port) = (gen_ip(&mut c.rng), c.rng.u16v());
        c.nontrivial(format!("{ip}:{port}").as_bytes());
        c.sample(|| format!("{ip} port {port} -> {:?}", v::Locator_t::from(SocketAddr::new(ip, port))));
        check_sock(c, ip, port)
    });
    x.cases("locators", 200_000, |c| {
        let mut l = gen_loc(&mut c.rng);
        match c.rng.below(4) {
            0 => l.port = c.rng.u16v() as u32,
            1 => l.port = c.rng.u16v() as u32 | 0x10000 << c.rng.below(16),
            _ => {}
        }
        if c.rng.chance(1, 4) {
            l.addr[..12].copy_from_slice(&[0; 12]);
        }
        c.nontrivial(format!("{l:?}").as_bytes());
        c.sample(|| format!("{l:?} -> {}", SocketAddr::from(mk_loc(&l))));
        check_loc(c, &l)?;
        let (ip, p) = (c.rng.arr(), c.rng.u32v());
        check_compact_wire(c, ip, p)
    });
    for w in ["unspecified", "socket_addresses", "compact_locators", "locators", "locators_without_valid_port", "unusable_locators"] {
        x.require(w, 20);
    }
}

// -------------------------------------------------------------- C15, C16

const G: i128 = 1_000_000_000;
const MAX_S: i128 = i32::MAX as i128;
fn mk_time(s: i32, f: u32) -> v::Time_t {
    read(false, &[s.to_be_bytes(), f.to_be_bytes()].concat())
}
fn mk_dur(s: i32, f: u32) -> v::Duration_t {
    read(false, &[s.to_be_bytes(), f.to_be_bytes()].concat())
}
fn dur(d: &v::Duration_t) -> (i32, u32) {
    let b = write(false, d);
    if b.len() != 8 {
        return (0x5eed, 0x5eed);
    }
    (i32::from_be_bytes([b[0], b[1], b[2], b[3]]), u32::from_be_bytes([b[4], b[5], b[6], b[7]]))
}
fn sys(ns: i128) -> Option<SystemTime> {
    let d = Duration::new((ns.unsigned_abs() / G as u128) as u64, (ns.unsigned_abs() % G as u128) as u32);
    if ns >= 0 { UNIX_EPOCH.checked_add(d) } else { UNIX_EPOCH.checked_sub(d) }
}
fn ns_of(t: SystemTime) -> i128 {
    match t.duration_since(UNIX_EPOCH) {
        Ok(d) => d.as_nanos() as i128,
        Err(e) => -(e.duration().as_nanos() as i128),
    }
}
const INVALID: (i32, u32) = (-1, u32::MAX);

/// -> the timestamp's parts
fn check_to_time(ns: i128) -> Result<Option<(i32, u32)>, Bad> {
    let Some(t) = sys(ns) else { return Ok(None) };
    let p = v::Time_t::from(t);
    let parts = time(&p);
    let fits = (0..(MAX_S + 1) * G).contains(&ns);
    if !fits {
        ensure!(parts == INVALID && p == v::Time_t::TIME_INVALID, "the time {ns} ns from the epoch, which no timestamp represents, became {p:?}");
        return Ok(Some(parts));
    }
    let back = match SystemTime::try_from(p) {
        Ok(b) => ns_of(b),
        Err(e) => return bad(format!("the time {ns} ns after the epoch became {p:?}, which does not convert back: {e}")),
    };
    ensure!((back - ns).abs() < 2, "the time {ns} ns after the epoch became {p:?} and then {back} ns");
    Ok(Some(parts))
}
/// -> nanoseconds since the epoch, None if refused
fn check_from_time(s: i32, f: u32) -> Result<Option<i128>, Bad> {
    let t = mk_time(s, f);
    match SystemTime::try_from(t) {
        Ok(b) => {
            ensure!(s >= 0, "the timestamp {t:?} converted to the time {} ns", ns_of(b));
            let ns = ns_of(b);
            let exact = s as i128 * G + ((f as i128 * G) >> 32);
            ensure!((ns - exact).abs() < 2, "the timestamp {t:?} converted to {ns} ns after the epoch, it denotes {exact}");
            Ok(Some(ns))
        }
        Err(e) => {
            ensure!(s < 0, "the timestamp {t:?} is refused: {e}");
            Ok(None)
        }
    }
}
fn gen_ns(r: &mut Rng) -> i128 {
    let s = match r.below(8) {
        0 => *r.pick(&[0i128, 1, -1, MAX_S, MAX_S + 1, MAX_S - 1, u32::MAX as i128, u32::MAX as i128 + 1, 1 << 33, i64::MAX as i128 / 2]),
        1 => r.int(i64::MIN as i128 / 4, i64::MAX as i128 / 4),
        2 => -(r.below(1 << 33) as i128),
        3 => MAX_S + 1 + r.below(1 << 34) as i128,
        _ => r.below(1 << 31) as i128,
    };
    s * G + gen_nanos(r) as i128
}
fn gen_nanos(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 => *r.pick(&[0, 1, 2, 3, 499_999_999, 500_000_000, 500_000_001, 999_999_997, 999_999_998, 999_999_999]),
        1 => r.below(20) as u32,
        2 => 999_999_999 - r.below(20) as u32,
        _ => r.below(1_000_000_000) as u32,
    }
}
pub fn c15(x: &Ctx) {
    x.cases("system times", 300_000, |c| {
        let a = gen_ns(&mut c.rng);
        let b = match c.rng.below(3) {
            0 => gen_ns(&mut c.rng),
            1 => a + 1,
            _ => a + c.rng.below(5_000_000_000) as i128,
        };
        c.note(|| format!("times {a} and {b} ns"));
        let (pa, pb) = (check_to_time(a)?, check_to_time(b)?);
        let range = 0..(MAX_S + 1) * G;
        if let (Some(pa), Some(pb)) = (pa, pb) {
            if range.contains(&a) && range.contains(&b) {
                let (lo, hi) = if a <= b { (pa, pb) } else { (pb, pa) };
                ensure!(lo <= hi, "the times {a} and {b} ns became {pa:?} and {pb:?}: out of order");
                let (ta, tb) = (mk_time(lo.0, lo.1), mk_time(hi.0, hi.1));
                ensure!(ta <= tb && (lo == hi || ta < tb), "timestamps {ta:?} and {tb:?} compare out of order");
                c.count("ordered_pairs", 1);
                c.count("representable", 2);
            } else {
                c.count("out_of_range", 1);
            }
            c.nontrivial(format!("{a}").as_bytes());
            c.sample(|| format!("{a} ns -> {pa:?}"));
        }
        Ok(())
    });
    x.cases("timestamps", 300_000, |c| {
        let one = |r: &mut Rng| -> (i32, u32) {
            match r.below(4) {
                0 => *r.pick(&[INVALID, (0, 0), (i32::MAX, u32::MAX), (-1, 0), (i32::MIN, 0), (i32::MIN, u32::MAX), (-1, u32::MAX - 1), (0, u32::MAX)]),
                1 => (r.below(3) as i32 - 1, r.u32v()),
                _ => (r.i32v(), r.u32v()),
            }
        };
        let a = one(&mut c.rng);
        let b = match c.rng.below(3) {
            0 => one(&mut c.rng),
            1 => (a.0, a.1.wrapping_add(1 + c.rng.below(9) as u32)),
            _ => (a.0.wrapping_add(1), c.rng.u32v()),
        };
        let (x, y) = (check_from_time(a.0, a.1)?, check_from_time(b.0, b.1)?);
        match (x, y) {
            (Some(x), Some(y)) => {
                ensure!((a <= b && x <= y) || (a >= b && x >= y), "the timestamps {a:?} and {b:?} became {x} and {y} ns: out of order");
                c.count("ordered_pairs", 1);
            }
            _ => c.count("refused", 1),
        }
        c.nontrivial(format!("{a:?}").as_bytes());
        Ok(())
    });
    // consecutive nanoseconds of one second, in blocks
    let step: u32 = if x.thorough { 1 } else { 61 };
    x.sweep("every nanosecond", 1000, |c| {
        let s = *c.rng.pick(&[0i128, 1, 1_700_000_000, MAX_S]);
        let mut last = None;
        let mut n = c.idx as u32 * 1_000_000 + c.rng.below(step as u64) as u32;
        let stop = (c.idx as u32 + 1) * 1_000_000;
        let mut k = 0;
        while n < stop {
            let p = check_to_time(s * G + n as i128)?.unwrap();
            if let Some(l) = last {
                ensure!(l <= p, "nanosecond {n} of second {s} became {p:?}, an earlier one {l:?}");
            }
            last = Some(p);
            // adjacent nanoseconds, too
            n += if c.rng.chance(1, 3) { 1 } else { step };
            k += 1;
        }
        c.count("representable", k);
        c.nontrivial_u64(c.idx);
        Ok(())
    });
    let fstep: u64 = if x.thorough { 7 } else { 509 };
    x.sweep("fractions", 1024, |c| {
        let s = *c.rng.pick(&[0i32, 1, 1_700_000_000, i32::MAX]);
        let mut f = c.idx << 22;
        let mut last = i128::MIN;
        let mut k = 0;
        while f < (c.idx + 1) << 22 {
            let ns = check_from_time(s, f as u32)?.unwrap_or(i128::MIN);
            ensure!(last <= ns, "fraction {f} of second {s} became {ns} ns, a smaller one {last} ns");
            last = ns;
            f += if c.rng.chance(1, 3) { 1 } else { fstep };
            k += 1;
        }
        c.count("fractions", k);
        c.nontrivial_u64(1 << 32 | c.idx);
        Ok(())
    });
    for w in ["representable", "out_of_range", "refused", "ordered_pairs"] {
        x.require(w, 50 * x.scale.min(100) / 100);
    }
}

fn gen_std_duration(r: &mut Rng) -> Duration {
    let s = match r.below(6) {
        0 => *r.pick(&[0u64, 1, MAX_S as u64, MAX_S as u64 + 1, MAX_S as u64 - 1, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX, u64::MAX - 1, i64::MAX as u64, 1 << 63]),
        1 => r.u64v(),
        2 => u32::MAX as u64 + r.below(1 << 33),
        _ => r.below(1 << 31),
    };
    Duration::new(s, gen_nanos(r))
}
fn check_duration(d: Duration) -> Result<(i32, u32), Bad> {
    let p = v::Duration_t::from(d);
    let parts = dur(&p);
    if d.as_secs() as i128 > MAX_S || d.as_secs() > i64::MAX as u64 {
        ensure!(p == v::Duration_t::DURATION_INFINITE && parts == (i32::MAX, u32::MAX), "the duration {d:?}, too long to be represented, became {p:?}");
    } else {
        let back = Duration::from(p);
        ensure!(back == d, "the duration {d:?} became {parts:?} and then {back:?}");
    }
    Ok(parts)
}
pub fn c16(x: &Ctx) {
    x.cases("standard durations", 400_000, |c| {
        let a = gen_std_duration(&mut c.rng);
        let b = match c.rng.below(3) {
            0 => gen_std_duration(&mut c.rng),
            1 => a.checked_add(Duration::new(0, 1)).unwrap_or(a),
            _ => a.checked_add(Duration::new(c.rng.below(3), gen_nanos(&mut c.rng))).unwrap_or(a),
        };
        let (pa, pb) = (check_duration(a)?, check_duration(b)?);
        let (x, y) = (mk_dur(pa.0, pa.1), mk_dur(pb.0, pb.1));
        ensure!(if a <= b { x <= y && pa <= pb } else { x >= y && pa >= pb }, "the durations {a:?} and {b:?} became {x:?} and {y:?}: out of order");
        c.count("ordered_pairs", 1);
        c.count(if a.as_secs() as i128 > MAX_S { "too_long" } else { "representable" }, 1);
        c.nontrivial(format!("{a:?}").as_bytes());
        c.sample(|| format!("{a:?} -> {pa:?}"));
        Ok(())
    });
    x.cases("protocol durations", 400_000, |c| {
        let (s, f) = match c.rng.below(4) {
            0 => *c.rng.pick(&[INVALID, (0, 0), (i32::MAX, u32::MAX), (-1, 0), (i32::MIN, 0), (i32::MIN, u32::MAX), (i32::MAX, 999_999_999), (i32::MAX, 1_000_000_000), (0, u32::MAX)]),
            1 => (-1 - c.rng.below(1 << 31) as i32, c.rng.u32v()),
            _ => (c.rng.i32v(), c.rng.u32v()),
        };
        let p = mk_dur(s, f);
        let d = Duration::from(mk_dur(s, f));
        if s < 0 {
            ensure!(d == Duration::default(), "the negative duration {p:?} became {d:?}");
            c.count("negative", 1);
        } else {
            c.count("converted", 1);
            if f < 1_000_000_000 {
                // these are results of the other direction as well
                let again = dur(&v::Duration_t::from(d));
                ensure!(again == (s, f), "the duration {p:?} became {d:?} and then {again:?}");
            }
        }
        c.nontrivial(format!("{s},{f}").as_bytes());
        Ok(())
    });
    x.sweep("seconds", 4096, |c| {
        // the ends of the range of seconds, and everything around 2^31, 2^32
        let k = c.idx as i128 - 2048;
        for m in [0i128, 1 << 31, 1 << 32, 1 << 33, 1 << 63, (1 << 32) + (1 << 31), 1_700_000_000] {
            let s = m + k;
            if !(0..1 << 64).contains(&s) {
                continue;
            }
            for n in [0u32, 1, 999_999_999, gen_nanos(&mut c.rng)] {
                check_duration(Duration::new(s as u64, n))?;
            }
            c.count("swept", 4);
        }
        c.nontrivial_u64(c.idx);
        Ok(())
    });
    let step: u32 = if x.thorough { 1 } else { 61 };
    x.sweep("every nanosecond", 1000, |c| {
        let s = *c.rng.pick(&[0u64, 1, 3600, MAX_S as u64]);
        let mut last = (i32::MIN, 0);
        let mut n = c.idx as u32 * 1_000_000;
        let mut k = 0;
        while n < (c.idx as u32 + 1) * 1_000_000 {
            let p = check_duration(Duration::new(s, n))?;
            ensure!(last <= p, "nanosecond {n} became {p:?}, an earlier one {last:?}");
            last = p;
            n += if c.rng.chance(1, 3) { 1 } else { step };
            k += 1;
        }
        c.count("swept", k);
        c.nontrivial_u64(1 << 32 | c.idx);
        Ok(())
    });
    for w in ["too_long", "representable", "negative", "converted"] {
        x.require(w, 50 * x.scale.min(100) / 100);
    }
}

// ------------------------------------------------------------------- C17

fn pad(n: usize) -> usize {
    n.div_ceil(4) * 4
}
fn u16b(le: bool, x: u16) -> [u8; 2] {
    if le { x.to_le_bytes() } else { x.to_be_bytes() }
}
/// The layout of a parameter with this value.
fn param_bytes(le: bool, id: u16, value: &[u8]) -> Vec<u8> {
    let mut b = u16b(le, id).to_vec();
    b.extend(u16b(le, pad(value.len()) as u16));
    b.extend_from_slice(value);
    b.resize(4 + pad(value.len()), 0);
    b
}
/// id, value
fn parse_param(le: bool, b: &[u8]) -> Option<(u16, Vec<u8>)> {
    let g = |i: usize| Some(if le { u16::from_le_bytes([*b.get(i)?, *b.get(i + 1)?]) } else { u16::from_be_bytes([*b.get(i)?, *b.get(i + 1)?]) });
    let (id, n) = (g(0)?, g(2)? as usize);
    if b.len() != 4 + n {
        return None;
    }
    Some((id, b[4..].to_vec()))
}
fn gen_value(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(10) {
        0 => *r.pick(&[0usize, 1, 2, 3, 4, 5, 255, 256, 257, 65_529, 65_530, 65_531, 65_532]),
        1 => r.range(60_000, 65_532),
        2 => r.usize(65_533),
        _ => r.usize(70),
    };
    r.bytes(n)
}
#[cfg(rtps_verif_parameter)]
pub fn new_param(id: u16, value: Vec<u8>) -> v::Parameter {
    v::Parameter::verif_new(read(false, &id.to_be_bytes()), value)
}
#[cfg(not(rtps_verif_parameter))]
pub fn new_param(id: u16, value: Vec<u8>) -> v::Parameter {
    read(false, &param_bytes(false, id, &value))
}
fn check_param(c: &mut Case, id: u16, value: Vec<u8>) -> Verdict {
    let n = value.len();
    let p = new_param(id, value.clone());
    for le in [false, true] {
        if n > 2048 && n < 65_500 && le != (id & 1 == 1) {
            continue;
        }
        let w = p.write_to_vec_with_ctx(end(le));
        if pad(n) > 65535 {
            ensure!(w.is_err(), "a parameter with a value of {n} bytes, which does not fit the length field, was written as {}", hex(&w.unwrap_or_default()));
            let mut s = vec![];
            ensure!(p.write_to_stream_with_ctx(end(le), &mut s).is_err(), "a parameter with a value of {n} bytes was written to a stream as {} bytes", s.len());
            c.count("refused_too_long", 1);
            continue;
        }
        let w = match w {
            Ok(w) => w,
            Err(e) => return bad(format!("a parameter with a value of {n} bytes was refused: {e}")),
        };
        let want = param_bytes(le, id, &value);
        ensure!(w == want, "parameter {id:#06x} with a value of {n} bytes {} was written (little endian: {le}) as {}, expected {}", hex(&value), hex(&w), hex(&want));
        let mut s = vec![];
        ensure!(n > 2048 && id & 6 != 0 || p.write_to_stream_with_ctx(end(le), &mut s).is_ok() && s == w, "a parameter with a value of {n} bytes was written to a stream as {}", hex(&s));
        let mut b = w.clone();
        b.extend(c.rng.bytes(9));
        let (got, used) = v::Parameter::read_with_length_from_buffer_with_ctx(end(le), &b);
        match got {
            Ok(q) => {
                ensure!(used == w.len(), "reading a parameter with a value of {n} bytes used {used} of {} bytes", w.len());
                let back = parse_param(le, &write(le, &q));
                ensure!(back == Some((id, want[4..].to_vec())), "parameter {id:#06x} with a value of {n} bytes was read back as {back:?}");
                if n % 4 == 0 {
                    ensure!(q == p, "a parameter with a value of {n} bytes is not equal to itself after writing and reading");
                }
            }
            Err(e) => return bad(format!("a written parameter with a value of {n} bytes cannot be read: {e}")),
        }
        c.count("parameters", 1);
    }
    Ok(())
}
pub fn c17(x: &Ctx) {
    // every length, including those that do not fit
    x.sweep("all lengths", 65_536 + 80, |c| {
        let n = c.idx as usize;
        let style = c.rng.u8();
        let value: Vec<u8> = (0..n).map(|i| if style == 0 { 0xff } else { (i as u8).wrapping_mul(7) ^ style }).collect();
        let id = c.rng.u16v();
        c.nontrivial_u64(c.idx);
        check_param(c, id, value)
    });
    x.cases("parameters", 60_000, |c| {
        let (id, val) = (c.rng.u16v(), gen_value(&mut c.rng));
        c.nontrivial(&[&id.to_be_bytes()[..], &val].concat());
        c.sample(|| format!("id {id:#06x}, {} bytes {}", val.len(), hex(&val[..val.len().min(40)])));
        check_param(c, id, val)
    });
    // lists: each read leaves the reader at the next one
    x.cases("sequences", 20_000, |c| {
        let le = c.rng.bool();
        let n = c.rng.range(2, 12);
        let list: Vec<(u16, Vec<u8>)> = (0..n)
            .map(|i| {
                let r = &mut c.rng;
                let k = r.usize(40);
                let id = if i == n - 1 { 1 } else { *r.pick(&[0u16, 1, 5, 7, 0x2c, 0x70, 0xffff, 0x8000]) };
                (id, r.bytes(k))
            })
            .collect();
        let mut b = vec![];
        for (id, val) in &list {
            let w = new_param(*id, val.clone()).write_to_vec_with_ctx(end(le)).unwrap_or_default();
            ensure!(w.len() % 4 == 0, "a parameter took {} bytes", w.len());
            b.extend(w);
        }
        c.note(|| format!("list {}", hex(&b)));
        let mut at = 0;
        for (i, (id, val)) in list.iter().enumerate() {
            let (got, used) = v::Parameter::read_with_length_from_buffer_with_ctx(end(le), &b[at..]);
            match got {
                Ok(q) => {
                    let mut want = val.clone();
                    want.resize(pad(val.len()), 0);
                    let back = parse_param(le, &write(le, &q));
                    ensure!(back.as_ref() == Some(&(*id, want)), "parameter {i} ({id:#06x}, {}) of a list was read as {back:?}", hex(val));
                }
                Err(e) => return bad(format!("parameter {i} of a list of {n} cannot be read: {e}")),
            }
            at += used;
        }
        ensure!(at == b.len(), "reading a list of parameters used {at} of {} bytes", b.len());
        c.count("list_elements", n as u64);
        c.nontrivial(&b);
        Ok(())
    });
    // every length field against shorter and longer input
    x.sweep("all length fields", 65_536, |c| {
        let n = c.idx as u16;
        let le = c.rng.bool();
        let id = c.rng.u16v();
        let mut b = u16b(le, id).to_vec();
        b.extend(u16b(le, n));
        let have = match c.rng.below(5) {
            0 => n as usize,
            1 => (n as usize).saturating_sub(1 + c.rng.usize(4)),
            2 => n as usize + c.rng.usize(8),
            _ => c.rng.usize(200),
        };
        b.resize(4 + have, 0x5a);
        let (got, used) = v::Parameter::read_with_length_from_buffer_with_ctx(end(le), &b);
        ensure!(used <= b.len(), "reading used {used} of {} bytes", b.len());
        match got {
            Ok(q) => {
                ensure!(have >= n as usize, "a parameter claiming {n} bytes was read from {have}");
                let val = parse_param(le, &write(le, &q));
                if n % 4 == 0 {
                    ensure!(val == Some((id, b[4..4 + n as usize].to_vec())) && used == 4 + n as usize, "a parameter claiming {n} bytes was read as {val:?}, using {used}");
                }
                c.count("claims_kept", 1);
            }
            Err(_) => {
                ensure!(have < pad(n as usize), "a parameter claiming {n} bytes was refused although {have} follow");
                c.count("claims_refused", 1);
            }
        }
        for cut in 0..4 {
            ensure!(v::Parameter::read_from_buffer_with_ctx(end(le), &b[..cut]).is_err(), "a parameter was read from {cut} bytes");
        }
        c.nontrivial_u64(1 << 40 | c.idx);
        Ok(())
    });
    for w in ["parameters", "list_elements", "claims_kept", "claims_refused"] {
        x.require(w, 50 * x.scale.min(100) / 100);
    }
    if cfg!(rtps_verif_parameter) {
        x.require("refused_too_long", 4 * x.scale.min(100) / 100);
    }
}
