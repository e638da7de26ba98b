//! Comparison of values (C26): comparing agrees with what the values mean,
//! all comparison operators agree with each other, and copies are equal.
use crate::behav::{gen_chg, mk_chg, mk_ckind, Chg};
use crate::ensure;
use crate::real::*;
use crate::rng::Rng;
use crate::runner::*;
use rtps_rs::verif_hooks as v;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// A kind of value with a way to make it from a plain key. `order`: keys are
/// ordered as the values have to be; otherwise only that some total order
/// exists which agrees with equality is demanded.
trait Kind {
    type T: Ord + Debug;
    type K: Ord + Clone + Debug;
    const NAME: &'static str;
    const ORDER: bool;
    fn gen(r: &mut Rng) -> Self::K;
    /// A key close to another: mostly equal, one part different.
    fn near(r: &mut Rng, k: &Self::K) -> Self::K;
    fn mk(k: &Self::K) -> Self::T;
    fn hash(_: &Self::T) -> Option<u64> {
        None
    }
    fn copy(_: &Self::T) -> Option<Self::T> {
        None
    }
}

fn pair<V: Kind>(c: &mut Case, ka: &V::K, kb: &V::K) -> Result<Ordering, Bad> {
    let (a, b) = (V::mk(ka), V::mk(kb));
    let o = a.cmp(&b);
    if V::ORDER {
        ensure!(o == ka.cmp(kb), "{}: {a:?} compared with {b:?} is {o:?}, they are {ka:?} and {kb:?}", V::NAME);
    } else {
        ensure!((o == Ordering::Equal) == (ka == kb), "{}: {a:?} compared with {b:?} is {o:?}, they are {ka:?} and {kb:?}", V::NAME);
    }
    let p = a.partial_cmp(&b);
    ensure!(p == Some(o), "{}: {a:?} and {b:?}: cmp says {o:?}, partial_cmp {p:?}", V::NAME);
    ensure!(b.cmp(&a) == o.reverse(), "{}: {a:?} to {b:?} is {o:?}, the other way round {:?}", V::NAME, b.cmp(&a));
    let got = (a < b, a <= b, a > b, a >= b, a == b, a != b);
    let want = (o.is_lt(), o.is_le(), o.is_gt(), o.is_ge(), o.is_eq(), o.is_ne());
    ensure!(got == want, "{}: {a:?} and {b:?} compare as {o:?}, but (<, <=, >, >=, ==, !=) give {got:?}", V::NAME);
    #[allow(clippy::eq_op)]
    let refl = a == a && a.cmp(&a).is_eq() && b == V::mk(kb) && !(a != V::mk(ka));
    ensure!(refl, "{}: {a:?} or {b:?} is not equal to itself", V::NAME);
    if o.is_eq() {
        c.count("equal_pairs", 1);
        ensure!(V::hash(&a) == V::hash(&b), "{}: equal values {a:?} and {b:?} have different hashes", V::NAME);
    } else {
        c.count("unequal_pairs", 1);
    }
    for (x, k) in [(&a, ka), (&b, kb)] {
        if let Some(y) = V::copy(x) {
            ensure!(y == *x && y == V::mk(k) && y.cmp(x).is_eq(), "{}: a copy of {x:?} is {y:?}", V::NAME);
            c.count("copies", 1);
        }
    }
    let (hi, lo) = (V::mk(ka).max(V::mk(kb)), V::mk(ka).min(V::mk(kb)));
    let want = if o.is_lt() { (&b, &a) } else { (&a, &b) };
    ensure!(&hi == want.0 && &lo == want.1, "{}: of {a:?} and {b:?} the maximum is {hi:?}, the minimum {lo:?}", V::NAME);
    Ok(o)
}

fn case<V: Kind>(c: &mut Case) -> Verdict {
    let n = 3 + c.rng.usize(10);
    let mut ks: Vec<V::K> = vec![V::gen(&mut c.rng)];
    while ks.len() < n {
        let k = match c.rng.below(4) {
            0 => V::gen(&mut c.rng),
            1 => c.rng.pick(&ks).clone(),
            _ => {
                let k = c.rng.pick(&ks).clone();
                V::near(&mut c.rng, &k)
            }
        };
        ks.push(k);
    }
    c.note(|| format!("{}: {ks:?}", V::NAME));
    let mut o = vec![];
    for a in &ks {
        for b in &ks {
            o.push(pair::<V>(c, a, b)?);
        }
    }
    // transitive
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                if o[i * n + j].is_le() && o[j * n + k].is_le() {
                    let strict = o[i * n + j].is_lt() || o[j * n + k].is_lt();
                    let ik = o[i * n + k];
                    ensure!(
                        if strict { ik.is_lt() } else { ik.is_eq() },
                        "{}: {:?} <= {:?} <= {:?}, yet the first compared with the last is {ik:?}",
                        V::NAME,
                        ks[i],
                        ks[j],
                        ks[k]
                    );
                    c.count("chains", 1);
                }
            }
        }
    }
    // as keys of a sorted collection
    let mut m = std::collections::BTreeMap::new();
    for (i, k) in ks.iter().enumerate() {
        m.insert(V::mk(k), i);
    }
    let distinct: std::collections::BTreeSet<_> = ks.iter().cloned().collect();
    ensure!(m.len() == distinct.len(), "{}: a map keyed with {ks:?} has {} entries", V::NAME, m.len());
    for k in &distinct {
        let last = ks.iter().rposition(|x| x == k);
        let got = m.get(&V::mk(k)).copied();
        ensure!(got == last, "{}: looking up {k:?} in a map gave entry {got:?}, stored was {last:?}", V::NAME);
    }
    if V::ORDER {
        let sorted: Vec<_> = m.keys().collect();
        let want: Vec<_> = distinct.iter().map(V::mk).collect();
        ensure!(sorted.iter().zip(&want).all(|(a, b)| **a == *b), "{}: sorted as {sorted:?}, expected {want:?}", V::NAME);
    }
    c.sample(|| format!("{}: {:?}", V::NAME, distinct));
    c.nontrivial(format!("{}{ks:?}", V::NAME).as_bytes());
    Ok(())
}

fn near_bytes<const N: usize>(r: &mut Rng, k: &[u8; N]) -> [u8; N] {
    let mut k = *k;
    let n = 1 + r.usize(2);
    for _ in 0..n {
        let i = r.usize(N);
        match r.below(4) {
            0 => k[i] = k[i].wrapping_add(1),
            1 => k[i] = k[i].wrapping_sub(1),
            2 => k[i] ^= 1 << r.below(8),
            _ => k[i] = r.u8(),
        }
    }
    if r.chance(1, 8) {
        let (i, j) = (r.usize(N), r.usize(N));
        k.swap(i, j);
    }
    k
}

macro_rules! kind {
    ($n:ident, $name:expr, $t:ty, $k:ty, $order:expr, gen $gen:expr, near $near:expr, mk $mk:expr $(, hash $hash:expr)? $(, copy $copy:expr)?) => {
        struct $n;
        impl Kind for $n {
            type T = $t;
            type K = $k;
            const NAME: &'static str = $name;
            const ORDER: bool = $order;
            fn gen(r: &mut Rng) -> $k {
                let f: fn(&mut Rng) -> $k = $gen;
                f(r)
            }
            fn near(r: &mut Rng, k: &$k) -> $k {
                let f: fn(&mut Rng, &$k) -> $k = $near;
                f(r, k)
            }
            fn mk(k: &$k) -> $t {
                let f: fn(&$k) -> $t = $mk;
                f(k)
            }
            $(fn hash(x: &$t) -> Option<u64> {
                let f: fn(&$t) -> u64 = $hash;
                Some(f(x))
            })?
            $(fn copy(x: &$t) -> Option<$t> {
                let f: fn(&$t) -> $t = $copy;
                Some(f(x))
            })?
        }
    };
}

fn sec_frac(r: &mut Rng) -> (i32, u32) {
    let s = match r.below(6) {
        0 => *r.pick(&[-1, 0, 1, i32::MAX, i32::MIN, -2]),
        _ => r.i32v(),
    };
    let f = match r.below(6) {
        0 => *r.pick(&[0, 1, u32::MAX, u32::MAX - 1, 0x8000_0000, 999_999_999, 1_000_000_000]),
        _ => r.u32v(),
    };
    (s, f)
}
fn near_sec_frac(r: &mut Rng, k: &(i32, u32)) -> (i32, u32) {
    let (s, f) = *k;
    match r.below(7) {
        0 => (s, f.wrapping_add(1)),
        1 => (s, f.wrapping_sub(1)),
        2 => (s.wrapping_add(1), f),
        3 => (s.wrapping_sub(1), f),
        4 => (s.wrapping_add(1), f.wrapping_sub(1)),
        5 => (s.wrapping_neg(), f),
        _ => (s, r.u32v()),
    }
}
fn sf(k: &(i32, u32)) -> [u8; 8] {
    let mut b = [0; 8];
    b[..4].copy_from_slice(&k.0.to_be_bytes());
    b[4..].copy_from_slice(&k.1.to_be_bytes());
    b
}
type Guid = ([u8; 12], [u8; 4]);

kind!(Time, "Time_t", v::Time_t, (i32, u32), true, gen sec_frac, near near_sec_frac, mk |k| read(false, &sf(k)), hash hash_of, copy |x| *x);
kind!(Dur, "Duration_t", v::Duration_t, (i32, u32), true, gen sec_frac, near near_sec_frac, mk |k| read(false, &sf(k)));
kind!(Version, "ProtocolVersion_t", v::ProtocolVersion_t, (u8, u8), true,
    gen |r| (r.u8(), r.u8()),
    near |r, k| match r.below(5) {
        0 => (k.0, k.1.wrapping_add(1)),
        1 => (k.0.wrapping_add(1), k.1),
        2 => (k.1, k.0),
        3 => (k.0, r.u8()),
        _ => (r.u8(), k.1),
    },
    mk |k| v::ProtocolVersion_t { major: k.0, minor: k.1 }, copy |x| *x);
kind!(Count, "Count_t", v::Count_t, i32, true,
    gen |r| r.i32v(),
    near |r, k| match r.below(4) { 0 => k.wrapping_add(1), 1 => k.wrapping_sub(1), 2 => k.wrapping_neg(), _ => k ^ 1 << r.below(32) },
    mk |k| v::Count_t::from(*k), copy |x| *x);
kind!(Seq, "SequenceNumber_t", v::SequenceNumber_t, i64, true,
    gen |r| r.i64v(),
    near |r, k| match r.below(4) { 0 => k.wrapping_add(1), 1 => k.wrapping_sub(1), 2 => k.wrapping_neg(), _ => k ^ 1 << r.below(64) },
    mk |k| mk_sn(*k), hash hash_of, copy |x| *x);
kind!(Frag, "FragmentNumber_t", v::FragmentNumber_t, u32, true,
    gen |r| r.u32v(),
    near |r, k| match r.below(3) { 0 => k.wrapping_add(1), 1 => k.wrapping_sub(1), _ => k ^ 1 << r.below(32) },
    mk |k| v::FragmentNumber_t::from(*k), copy |x| *x);
kind!(Eid, "EntityId_t", v::EntityId_t, [u8; 4], true, gen |r| r.arr(), near |r, k| near_bytes(r, k), mk |k| mk_eid(*k), copy |x| *x);
kind!(Prefix, "GuidPrefix_t", v::GuidPrefix_t, [u8; 12], true, gen |r| r.arr(), near |r, k| near_bytes(r, k),
    mk |k| v::GuidPrefix_t { entity_key: *k }, copy |x| *x);
kind!(GuidK, "GUID_t", v::GUID_t, Guid, true,
    gen |r| (r.arr(), r.arr()),
    near |r, k| match r.below(3) { 0 => (near_bytes(r, &k.0), k.1), 1 => (k.0, near_bytes(r, &k.1)), _ => (near_bytes(r, &k.0), near_bytes(r, &k.1)) },
    mk |k| mk_guid(k.0, k.1), copy |x| *x);
kind!(Handle, "InstanceHandle_t", v::InstanceHandle_t, [u8; 16], true, gen |r| r.arr(), near |r, k| near_bytes(r, k),
    mk |k| v::InstanceHandle_t { entity_key: *k });
kind!(Pid, "ProtocolId_t", v::ProtocolId_t, [u8; 4], false,
    gen |r| if r.bool() { *b"RTPS" } else { r.arr() }, near |r, k| near_bytes(r, k), mk |k| read(false, k));
kind!(Flags, "SubmessageFlag", v::SubmessageFlag, u8, false, gen |r| r.u8(), near |r, k| k ^ 1 << r.below(8),
    mk |k| v::SubmessageFlag { flags: *k });
kind!(Change, "ChangeKind_t", v::ChangeKind_t, u8, false, gen |r| r.below(3) as u8, near |r, _| r.below(3) as u8, mk |k| mk_ckind(*k));

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct CK(i64, u8, [u8; 12], [u8; 4], [u8; 16]);
kind!(Cache, "CacheChange", v::CacheChange, CK, false,
    gen |r| {
        let (n, serial) = (if r.bool() { r.i64v() } else { r.below(4) as i64 }, r.below(3) as u32);
        let c = gen_chg(r, n, serial);
        CK(c.sn, c.kind, c.prefix, c.eid, c.handle)
    },
    near |r, k| {
        let mut k = k.clone();
        match r.below(5) {
            0 => k.0 = k.0.wrapping_add(1),
            1 => k.1 = (k.1 + 1) % 3,
            2 => k.2 = near_bytes(r, &k.2),
            3 => k.3 = near_bytes(r, &k.3),
            _ => k.4 = near_bytes(r, &k.4),
        }
        k
    },
    mk |k| mk_chg(&Chg { sn: k.0, kind: k.1, prefix: k.2, eid: k.3, handle: k.4 }));

/// Types that can only be compared for equality: equal exactly when their
/// fields are, symmetric, and so are their copies.
fn equality<T: PartialEq + Debug, K: PartialEq + Clone + Debug>(c: &mut Case, name: &str, ks: &[K], mk: impl Fn(&K) -> T) -> Verdict {
    for a in ks {
        for b in ks {
            let (x, y) = (mk(a), mk(b));
            let got = (x == y, y == x, x != y, y != x);
            let e = a == b;
            ensure!(got == (e, e, !e, !e), "{name}: {x:?} and {y:?} (made from {a:?} and {b:?}): (==, == reversed, !=, != reversed) gave {got:?}");
            c.count(if e { "equal_pairs" } else { "unequal_pairs" }, 1);
        }
        #[allow(clippy::eq_op)]
        {
            let x = mk(a);
            ensure!(x == x, "{name}: {x:?} is not equal to itself");
        }
    }
    Ok(())
}
fn eq_case(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let k0 = (gen_kind(r), r.u32v(), r.arr::<16>());
    let mut locs = vec![k0];
    for _ in 0..5 {
        let mut k = *r.pick(&locs);
        match r.below(5) {
            0 => k.0 = gen_kind(r),
            1 => k.1 = k.1.wrapping_add(1),
            2 => k.1 ^= 1 << r.below(32),
            _ => k.2 = near_bytes(r, &k.2),
        }
        locs.push(k);
    }
    let v0 = r.arr::<2>();
    let vendors = [v0, [v0[1], v0[0]], near_bytes(r, &v0), [1, 1], [1, 2], [0, 0]];
    let udp: Vec<([u8; 4], u32)> = {
        let a = (r.arr::<4>(), r.u32v());
        vec![a, (near_bytes(r, &a.0), a.1), (a.0, a.1 ^ 1 << r.below(32)), (r.arr(), a.1), a]
    };
    let ids = {
        let a = r.u16v();
        [a, a ^ 1 << r.below(16), r.u16v(), a.wrapping_add(1), a & 0xff, a & 0x7fff]
    };
    equality(c, "Locator_t", &locs, |k| mk_loc(&crate::spec::Loc { kind: k.0, port: k.1, addr: k.2, wild_port: false }))?;
    equality(c, "VendorId_t", &vendors, |k| v::VendorId_t { vendor_id: *k })?;
    equality(c, "LocatorUDPv4_t", &udp, |k| {
        let mut b = [0u8; 8];
        b[..4].copy_from_slice(&k.0);
        b[4..].copy_from_slice(&k.1.to_be_bytes());
        read::<v::LocatorUDPv4_t>(false, &b)
    })?;
    equality(c, "ParameterId", &ids, |k| read::<v::ParameterId>(false, &k.to_be_bytes()))?;
    equality(c, "LocatorKind_t", &[-1, 0, 1, 2], |k| mk_kind(*k))?;
    equality(c, "TopicKind_t", &[1u32, 2], |k| read::<v::TopicKind_t>(false, &k.to_be_bytes()))?;
    equality(c, "ReliabilityKind_t", &[1u32, 3], |k| read::<v::ReliabilityKind_t>(false, &k.to_be_bytes()))?;
    c.nontrivial(format!("{locs:?}{vendors:?}{udp:?}{ids:?}").as_bytes());
    Ok(())
}

/// Delivered submessages: equal exactly when all their contents are, also
/// when they came in different byte orders.
fn eq_delivered(c: &mut Case) -> Verdict {
    use crate::spec::*;
    let mut subs: Vec<Sub> = vec![];
    for _ in 0..6 {
        let r = &mut c.rng;
        let mut s = match subs.is_empty() || r.chance(1, 3) {
            true => {
                let k = *r.pick(&ENTITY_KINDS);
                gen_sub_kind(r, k, &OPTS)
            }
            false => r.pick(&subs).clone(),
        };
        match r.below(4) {
            0 => {} // once more
            1 if !s.body.is_empty() => {
                let i = r.usize(s.body.len());
                s.body[i] ^= 1 << r.below(8);
            }
            2 => s.flags ^= 1 << r.range(1, 7),
            _ if s.body.len() >= 8 => {
                let i = r.usize(s.body.len() - 7);
                let (x, y) = s.body.split_at_mut(i + 4);
                x[i..].swap_with_slice(&mut y[..4]);
            }
            _ => {}
        }
        s.last = false;
        subs.push(s);
    }
    let b = Message { version: (2, 4), vendor: [1, 2], prefix: [7; 12], subs }.bytes();
    let decoded = |b: &[u8]| {
        let mut rx = Recv::new(1);
        rx.feed(b);
        let mut got = vec![];
        while let (true, Ok(Some(x))) = (got.len() < 50, tokio_util::codec::Decoder::decode(&mut rx.m, &mut rx.buf)) {
            got.push(x);
        }
        got
    };
    let (one, two) = (decoded(&b), decoded(&b));
    let means: Vec<Item> = decoded(&b).into_iter().map(item).collect();
    ensure!(one.len() == means.len() && two.len() == means.len(), "decoding {} three times gave {}, {} and {} submessages", hex(&b), one.len(), two.len(), means.len());
    // a set whose bits may denote numbers that there are none for means nothing in particular
    let beyond = |i: &Item| match i {
        Item::AckNack { base, .. } | Item::Gap { base, .. } => *base > i64::MAX - 256,
        Item::NackFrag { base, .. } => *base > u32::MAX - 256,
        _ => false,
    };
    for (x, m) in one.iter().zip(&means) {
        for (y, n) in two.iter().zip(&means) {
            if beyond(m) && beyond(n) {
                continue;
            }
            let got = (x == y, y == x, x != y, y != x);
            let e = m == n;
            ensure!(got == (e, e, !e, !e), "{x:?} and {y:?} (from {}): (==, == reversed, !=, != reversed) gave {got:?}", hex(&b));
            c.count(if e { "equal_pairs" } else { "unequal_pairs" }, 1);
        }
    }
    c.nontrivial(&b);
    Ok(())
}

pub fn c26(x: &Ctx) {
    x.cases("timestamps", 3_000, case::<Time>);
    x.cases("durations", 3_000, case::<Dur>);
    x.cases("protocol versions", 2_000, case::<Version>);
    x.cases("counts", 2_000, case::<Count>);
    x.cases("sequence numbers", 2_000, case::<Seq>);
    x.cases("fragment numbers", 2_000, case::<Frag>);
    x.cases("entity ids", 2_000, case::<Eid>);
    x.cases("GUID prefixes", 2_000, case::<Prefix>);
    x.cases("GUIDs", 3_000, case::<GuidK>);
    x.cases("instance handles", 2_000, case::<Handle>);
    x.cases("protocol ids", 1_000, case::<Pid>);
    x.cases("flags", 1_000, case::<Flags>);
    x.cases("change kinds", 300, case::<Change>);
    x.cases("changes", 3_000, case::<Cache>);
    x.cases("equality only", 3_000, eq_case);
    x.cases("equality of delivered submessages", 6_000, eq_delivered);
    macro_rules! wires {
        ($($t:ty),*) => { $( x.cases(concat!("equality of ", stringify!($t)), 600, crate::wire::eq_case::<$t>); )* };
    }
    crate::all_wires!(wires);
    // all versions against the ones that matter, all version pairs of small numbers
    x.sweep("all protocol versions", 65536, |c| {
        let k = ((c.idx >> 8) as u8, c.idx as u8);
        for o in [(2, 4), (2, 3), (2, 1), (1, 255), (3, 0), (0, 0), (255, 255), (k.1, k.0), (k.0, k.1 ^ 0x80)] {
            pair::<Version>(c, &k, &o)?;
        }
        c.nontrivial_u64(c.idx);
        Ok(())
    });
    x.sweep("all flags", 256, |c| {
        for o in 0..=255u8 {
            pair::<Flags>(c, &(c.idx as u8), &o)?;
        }
        c.nontrivial_u64(c.idx);
        Ok(())
    });
    // every byte position of every id decides, in order of position
    x.sweep("byte positions of identifiers", 16 * 16, |c| {
        let (i, j) = ((c.idx / 16) as usize, (c.idx % 16) as usize);
        for (a, b) in [(1u8, 0u8), (0x80, 0x7f), (0xff, 0), (0, 0xff)] {
            let mut h = [0x40u8; 16];
            let mut g = [0x40u8; 16];
            h[i] = a;
            g[j] = b;
            pair::<Handle>(c, &h, &g)?;
            let split = |h: &[u8; 16]| -> Guid { (h[..12].try_into().unwrap(), h[12..].try_into().unwrap()) };
            pair::<GuidK>(c, &split(&h), &split(&g))?;
            pair::<Prefix>(c, &split(&h).0, &split(&g).0)?;
            pair::<Eid>(c, &split(&h).1, &split(&g).1)?;
        }
        c.nontrivial_u64(c.idx);
        Ok(())
    });
    for w in ["equal_pairs", "unequal_pairs", "chains", "copies"] {
        x.require(w, 1000 * x.scale.min(100) / 100);
    }
}
