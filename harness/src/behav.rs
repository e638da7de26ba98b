//! C18 to C21 and C25: history cache, reader proxies, writers, and all of them
//! together with the wire.
use crate::ensure;
use crate::real::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use rtps_rs::verif_hooks as v;
use std::collections::{BTreeMap, BTreeSet};

pub type Cache = v::MonitoredHistoryCache;

/// A change as plain values.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Chg {
    pub sn: i64,
    pub kind: u8,
    pub prefix: [u8; 12],
    pub eid: [u8; 4],
    pub handle: [u8; 16],
}
pub fn mk_ckind(k: u8) -> v::ChangeKind_t {
    match k {
        0 => v::ChangeKind_t::ALIVE,
        1 => v::ChangeKind_t::NOT_ALIVE_DISPOSED,
        _ => v::ChangeKind_t::NOT_ALIVE_UNREGISTERED,
    }
}
#[allow(unreachable_patterns)]
pub fn ckind(k: &v::ChangeKind_t) -> u8 {
    match k {
        v::ChangeKind_t::ALIVE => 0,
        v::ChangeKind_t::NOT_ALIVE_DISPOSED => 1,
        v::ChangeKind_t::NOT_ALIVE_UNREGISTERED => 2,
        _ => 9,
    }
}
pub fn mk_chg(c: &Chg) -> v::CacheChange {
    v::CacheChange {
        kind: mk_ckind(c.kind),
        writer_guid: mk_guid(c.prefix, c.eid),
        instance_handle: v::InstanceHandle_t { entity_key: c.handle },
        sequence_number: mk_sn(c.sn),
        data_value: v::Data {},
    }
}
pub fn chg(c: &v::CacheChange) -> Chg {
    Chg {
        sn: sn(&c.sequence_number),
        kind: ckind(&c.kind),
        prefix: c.writer_guid.guid_prefix.entity_key,
        eid: eid(&c.writer_guid.entity_id),
        handle: c.instance_handle.entity_key,
    }
}
/// Only a few distinct GUIDs and handles, so that confusions can happen, but
/// every change is recognisable by its handle's serial number.
pub fn gen_chg(r: &mut Rng, sn: i64, serial: u32) -> Chg {
    let mut handle = [0u8; 16];
    handle[0] = r.below(3) as u8;
    handle[12..].copy_from_slice(&serial.to_be_bytes());
    Chg { sn, kind: r.below(3) as u8, prefix: [r.below(2) as u8; 12], eid: [0, 0, r.below(2) as u8, 2], handle }
}
/// Sequence numbers that collide, neighbour each other, and span the range.
pub struct SnPool {
    centre: i64,
    spread: u64,
}
impl SnPool {
    pub fn new(r: &mut Rng) -> SnPool {
        SnPool {
            centre: match r.below(6) {
                0 => *r.pick(&[1, 0, i64::MAX, i64::MIN, u32::MAX as i64, i32::MAX as i64, 1 << 32, -1]),
                1 => r.i64v(),
                _ => 1,
            },
            spread: *r.pick(&[1u64, 3, 8, 20, 100, 1000]),
        }
    }
    pub fn pick(&self, r: &mut Rng) -> i64 {
        match r.below(30) {
            0 => r.i64v(),
            1 => *r.pick(&[1, 0, i64::MAX, i64::MIN, -1, 1 << 32, u32::MAX as i64, i64::MIN + 1]),
            // same low or high half as a neighbour
            2 => self.centre.saturating_add(1 << 32),
            _ => self.centre.saturating_add(r.below(self.spread) as i64 - if r.bool() { 0 } else { self.spread as i64 / 2 }),
        }
    }
}

// ------------------------------------------------------------------- C18

pub struct CacheModel {
    /// in order of addition
    pub stored: Vec<Chg>,
}
impl CacheModel {
    pub fn check(&self, c: &mut Case, h: &Cache, n: i64) -> Verdict {
        let got = h.get_change(mk_sn(n)).map(chg);
        let have: Vec<&Chg> = self.stored.iter().filter(|x| x.sn == n).collect();
        match &got {
            None => ensure!(have.is_empty(), "looking up {n} found nothing although {:?} was added and not removed", have[0]),
            Some(g) => {
                ensure!(g.sn == n, "looking up {n} gave the change {g:?}");
                ensure!(have.iter().any(|x| *x == g), "looking up {n} gave {g:?}; stored under that number: {have:?}");
            }
        }
        c.count(if got.is_some() { "found" } else { "not_found" }, 1);
        Ok(())
    }
    pub fn ends(&self, c: &mut Case, h: &Cache) -> Verdict {
        let (a, b) = (h.get_seq_num_min().map(|x| sn(&x)), h.get_seq_num_max().map(|x| sn(&x)));
        let (wa, wb) = (self.stored.iter().map(|x| x.sn).min(), self.stored.iter().map(|x| x.sn).max());
        ensure!(a == wa, "the minimum of a cache of {} changes is reported as {a:?}, it is {wa:?}", self.stored.len());
        ensure!(b == wb, "the maximum of a cache of {} changes is reported as {b:?}, it is {wb:?}", self.stored.len());
        c.count(if a.is_some() { "min_max" } else { "min_max_of_empty" }, 1);
        Ok(())
    }
}
fn c18_case(c: &mut Case) -> Verdict {
    let pool = SnPool::new(&mut c.rng);
    let mut h = Cache::new();
    let mut m = CacheModel { stored: vec![] };
    let n = *c.rng.pick(&[3usize, 10, 40, 40, 150]);
    let remove = *c.rng.pick(&[0u64, 2, 4, 6]);
    // some histories go strictly up or down
    let trend = c.rng.below(4);
    let mut next = pool.pick(&mut c.rng);
    let mut ops = vec![];
    for i in 0..n {
        let x = match trend {
            0 => {
                next = next.saturating_add(1);
                next
            }
            1 => {
                next = next.saturating_sub(1 + c.rng.below(2) as i64);
                next
            }
            _ => pool.pick(&mut c.rng),
        };
        if c.rng.below(10) < remove {
            let x = if !m.stored.is_empty() && c.rng.chance(3, 4) {
                match c.rng.below(4) {
                    0 => m.stored.iter().map(|x| x.sn).min().unwrap(),
                    1 => m.stored.iter().map(|x| x.sn).max().unwrap(),
                    _ => m.stored[c.rng.usize(m.stored.len())].sn,
                }
            } else {
                x
            };
            c.note(|| format!("remove {x}"));
            h.remove_change(mk_sn(x));
            m.stored.retain(|y| y.sn != x);
            ops.push(!(x as u8));
            m.check(c, &h, x)?;
            c.count("removals", 1);
        } else {
            let ch = gen_chg(&mut c.rng, x, i as u32);
            c.note(|| format!("add {ch:?}"));
            h.add_change(mk_chg(&ch));
            if m.stored.iter().any(|y| y.sn == x) {
                c.count("repeated_additions", 1);
            }
            m.stored.push(ch);
            ops.push(x as u8);
            m.check(c, &h, x)?;
            c.count("additions", 1);
        }
        if c.rng.bool() {
            m.ends(c, &h)?;
        }
        for _ in 0..c.rng.below(3) {
            let q = pool.pick(&mut c.rng);
            m.check(c, &h, q)?;
            // neighbours, and numbers sharing a half
            m.check(c, &h, q.wrapping_add(1))?;
            m.check(c, &h, q ^ (1 << 32))?;
        }
    }
    m.ends(c, &h)?;
    let all: BTreeSet<i64> = m.stored.iter().map(|x| x.sn).collect();
    for x in all {
        m.check(c, &h, x)?;
    }
    c.nontrivial(&[&ops[..], &pool.centre.to_le_bytes()].concat());
    c.sample(|| format!("{n} operations around {}, {} changes left", pool.centre, m.stored.len()));
    Ok(())
}
pub fn c18(x: &Ctx) {
    x.cases("histories", 40_000, c18_case);
    // every history of up to six operations over three numbers, in full
    x.sweep("all short histories", 6u64.pow(6), |c| {
        let nums = *c.rng.pick(&[[1i64, 2, 3], [5, 4, 1 << 32], [-1, 0, i64::MAX], [i64::MIN, 7, 6], [1 << 31, 1 << 32, 1 << 33]]);
        let mut h = Cache::new();
        let mut m = CacheModel { stored: vec![] };
        let mut k = c.idx;
        for i in 0..6 {
            let op = k % 6;
            k /= 6;
            let s = nums[op as usize % 3];
            if op < 3 {
                let ch = gen_chg(&mut c.rng, s, i);
                h.add_change(mk_chg(&ch));
                m.stored.push(ch);
            } else {
                h.remove_change(mk_sn(s));
                m.stored.retain(|y| y.sn != s);
            }
            m.ends(c, &h)?;
        }
        for s in nums {
            m.check(c, &h, s)?;
        }
        c.nontrivial_u64(c.idx);
        Ok(())
    });
    // large histories
    x.cases("large", 12, |c| {
        let mut h = Cache::new();
        let mut m = CacheModel { stored: vec![] };
        let n = 3000;
        let base = c.rng.below(1 << 40) as i64;
        for i in 0..n {
            let s = base + ((i as i64 * 7919) % n as i64);
            let ch = gen_chg(&mut c.rng, s, i);
            h.add_change(mk_chg(&ch));
            m.stored.push(ch);
        }
        for _ in 0..1000 {
            let s = base + c.rng.below(n as u64) as i64;
            h.remove_change(mk_sn(s));
            m.stored.retain(|y| y.sn != s);
        }
        for i in 0..n as i64 {
            m.check(c, &h, base + i)?;
        }
        c.count("large_histories", 1);
        c.nontrivial_u64(c.idx);
        m.ends(c, &h)
    });
    // very large ones, and long-lived ones of a few changes
    x.cases("huge", 2, |c| {
        let n: i64 = if x.scale < 100 || x.guided.is_some() { 400 } else { 70_000 };
        let base = *c.rng.pick(&[0i64, -1000, (1 << 32) - 30_000, i64::MAX - 200_000]);
        let mut h = Cache::new();
        let mut m = CacheModel { stored: vec![] };
        let window = c.idx % 2 == 1;
        let width = c.rng.range(1, 60) as i64;
        for i in 0..n {
            let s = base + if window { i } else { (i * 7919) % n };
            let ch = gen_chg(&mut c.rng, s, i as u32);
            h.add_change(mk_chg(&ch));
            m.stored.push(ch);
            if window && i >= width {
                h.remove_change(mk_sn(base + i - width));
                m.stored.retain(|y| y.sn != base + i - width);
            }
            if i % if window { 20 } else { 2000 } == 0 {
                let q = base + c.rng.below(i as u64 + 1) as i64;
                m.check(c, &h, q)?;
                m.check(c, &h, s)?;
                m.ends(c, &h)?;
            }
        }
        for _ in 0..60 {
            let k = c.rng.usize(m.stored.len());
            let q = m.stored[k].sn;
            if c.rng.bool() {
                h.remove_change(mk_sn(q));
                m.stored.retain(|y| y.sn != q);
            }
            m.check(c, &h, q)?;
            if m.stored.is_empty() {
                break;
            }
        }
        m.ends(c, &h)?;
        c.count("huge_histories", 1);
        c.nontrivial(&[base.to_le_bytes(), width.to_le_bytes()].concat());
        Ok(())
    });
    for w in ["additions", "removals", "repeated_additions", "found", "not_found", "min_max", "min_max_of_empty"] {
        x.require(w, 100 * x.scale.min(100) / 100);
    }
}

// ------------------------------------------------------------------- C19

/// A proxy and what it must do.
pub struct Proxy {
    pub p: v::ReaderProxy,
    pub prefix: [u8; 12],
    pub eid: [u8; 4],
    pub mark: i128,
    pub got: Vec<i64>,
}
impl Proxy {
    pub fn new(prefix: [u8; 12], eid: [u8; 4], qos: bool) -> Proxy {
        Proxy { p: v::ReaderProxy::new(mk_guid(prefix, eid), qos), prefix, eid, mark: i64::MIN as i128, got: vec![] }
    }
    pub fn unsent(&self, c: &mut Case, h: &[v::CacheChange]) -> Verdict {
        check_unsent(c, &self.p, self.mark, h)
    }
    pub fn next(&mut self, c: &mut Case, h: &[v::CacheChange]) -> Result<Option<i64>, Bad> {
        let want = h.iter().map(|x| sn(&x.sequence_number)).filter(|x| *x as i128 > self.mark).min();
        let got = self.p.next_unsent_change(h);
        if let Some(g) = got {
            ensure!(h.iter().any(|x| std::ptr::eq(x, g)), "the change handed out is not one of the history's");
        }
        let got = got.map(|g| sn(&g.sequence_number));
        c.note(|| format!("next unsent above {} -> {got:?}", self.mark));
        ensure!(got == want, "the next unsent change above {} of a history of {} is {got:?}, expected {want:?}; numbers in the history: {:?}", self.mark, h.len(), h.iter().take(60).map(|x| sn(&x.sequence_number)).collect::<Vec<_>>());
        if let Some(g) = got {
            ensure!(self.got.last().map_or(true, |l| *l < g), "{g} was handed out after {:?}", self.got.last());
            self.mark = g as i128;
            self.got.push(g);
            c.count("handed_out", 1);
        } else {
            c.count("nothing_unsent", 1);
        }
        let same = self.p.remote_reader_guid == mk_guid(self.prefix, self.eid);
        ensure!(same, "the proxy's GUID changed to {:?}", self.p.remote_reader_guid);
        Ok(got)
    }
}
pub fn check_unsent(c: &mut Case, p: &v::ReaderProxy, mark: i128, h: &[v::CacheChange]) -> Verdict {
    let want: Vec<*const v::CacheChange> = h.iter().filter(|x| sn(&x.sequence_number) as i128 > mark).map(|x| x as *const _).collect();
    let got: Vec<*const v::CacheChange> = p.unsent_changes(h).take(h.len() + 5).map(|x| x as *const _).collect();
    c.count("unsent_queries", 1);
    if want != got {
        let nums = |v: &[*const v::CacheChange]| -> Vec<String> {
            v.iter().take(40).map(|p| h.iter().find(|x| std::ptr::eq(*x, *p)).map_or("?".into(), |x| sn(&x.sequence_number).to_string())).collect()
        };
        return bad(format!("the changes unsent above {mark} are {:?}, expected {:?}", nums(&got), nums(&want)));
    }
    Ok(())
}
fn gen_sn_c19(r: &mut Rng, pool: &SnPool) -> i64 {
    // The smallest number there is stands for "none sent yet".
    pool.pick(r).max(i64::MIN + 1)
}
fn c19_case(c: &mut Case) -> Verdict {
    let pool = SnPool::new(&mut c.rng);
    let mut h: Vec<v::CacheChange> = vec![];
    let mut ps: Vec<Proxy> = vec![];
    let n = *c.rng.pick(&[5usize, 20, 60, 120]);
    let mut sig = vec![];
    let mut serial = 0;
    let rising = c.rng.bool();
    let mut next = pool.centre.max(i64::MIN + 1);
    for _ in 0..n {
        let op = c.rng.below(12);
        sig.push(op as u8);
        match op {
            0 if ps.len() < 5 => {
                // readers with the same GUID are still different proxies
                let id = c.rng.below(2) as u8;
                ps.push(Proxy::new([id; 12], [0, 0, id, 7], c.rng.bool()));
            }
            1..=4 => {
                for _ in 0..1 + c.rng.below(4) {
                    let s = if rising {
                        next = next.saturating_add(1 + c.rng.below(2) as i64);
                        next
                    } else {
                        gen_sn_c19(&mut c.rng, &pool)
                    };
                    let ch = gen_chg(&mut c.rng, s, serial);
                    serial += 1;
                    let at = c.rng.usize(h.len() + 1);
                    h.insert(if rising { h.len() } else { at }, mk_chg(&ch));
                    sig.push(s as u8);
                    c.note(|| format!("history gains {s}"));
                }
            }
            5 if !h.is_empty() => {
                let i = c.rng.usize(h.len());
                let s = sn(&h[i].sequence_number);
                c.note(|| format!("history loses {s}"));
                h.remove(i);
                c.count("history_removals", 1);
            }
            6 if !h.is_empty() => {
                let (i, j) = (c.rng.usize(h.len()), c.rng.usize(h.len()));
                h.swap(i, j);
            }
            _ if !ps.is_empty() => {
                let i = c.rng.usize(ps.len());
                sig.push(i as u8);
                match c.rng.below(4) {
                    0 => ps[i].unsent(c, &h)?,
                    1 => {
                        // drained
                        while ps[i].next(c, &h)?.is_some() {}
                        c.count("drained", 1);
                        ps[i].unsent(c, &h)?;
                    }
                    _ => {
                        let others: Vec<usize> = (0..ps.len()).filter(|k| *k != i).collect();
                        ps[i].next(c, &h)?;
                        for k in others.into_iter().take(2) {
                            ps[k].unsent(c, &h)?;
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for i in 0..ps.len() {
        ps[i].unsent(c, &h)?;
        while ps[i].next(c, &h)?.is_some() {}
        ps[i].unsent(c, &h)?;
        ensure!(ps[i].next(c, &h)?.is_none(), "a drained proxy handed out a change");
        let set: BTreeSet<i64> = ps[i].got.iter().copied().collect();
        ensure!(set.len() == ps[i].got.len(), "a change was handed out twice");
    }
    c.nontrivial(&[&sig[..], &pool.centre.to_le_bytes()].concat());
    c.sample(|| format!("{} proxies, {} changes around {}, handed out {:?}", ps.len(), h.len(), pool.centre, ps.iter().map(|p| p.got.len()).collect::<Vec<_>>()));
    Ok(())
}
pub fn c19(x: &Ctx) {
    x.cases("histories", 40_000, c19_case);
    // all orders of up to five changes, served at every point
    x.sweep("all orders", 120 * 32, |c| {
        let mut nums = *c.rng.pick(&[[1i64, 2, 3, 4, 5], [1, 1 << 32, (1 << 32) + 1, 2, i64::MAX], [-5, -1, 0, 1, 5], [7, 7, 8, 8, 9]]);
        let mut k = c.idx / 32;
        for i in (1..5).rev() {
            nums.swap(i, (k % (i as u64 + 1)) as usize);
            k /= i as u64 + 1;
        }
        let serve = c.idx % 32;
        let mut p = Proxy::new([1; 12], [0, 0, 0, 7], false);
        let mut q = Proxy::new([1; 12], [0, 0, 0, 7], true);
        let mut h = vec![];
        for (i, s) in nums.iter().enumerate() {
            h.push(mk_chg(&gen_chg(&mut c.rng, *s, i as u32)));
            if serve >> i & 1 == 1 {
                p.next(c, &h)?;
            }
            p.unsent(c, &h)?;
        }
        while p.next(c, &h)?.is_some() {}
        q.unsent(c, &h)?;
        while q.next(c, &h)?.is_some() {}
        c.nontrivial_u64(c.idx);
        Ok(())
    });
    x.cases("large", 12, |c| {
        let n = 1500i64;
        let mut h = vec![];
        for i in 0..n {
            h.push(mk_chg(&gen_chg(&mut c.rng, 1 + (i * 7919) % n, i as u32)));
        }
        let mut p = Proxy::new([1; 12], [0, 0, 0, 7], false);
        while p.next(c, &h)?.is_some() {}
        ensure!(p.got == (1..=n).collect::<Vec<_>>(), "{} of {n} changes were handed out", p.got.len());
        c.nontrivial_u64(c.idx);
        Ok(())
    });
    // a proxy that lives long, on a history of few changes; and very many changes
    x.cases("huge", 2, |c| {
        let n: i64 = if x.scale < 100 || x.guided.is_some() { 400 } else { 70_000 };
        let base = *c.rng.pick(&[1i64, -1000, (1 << 32) - 30_000, i64::MAX - 200_000]);
        let mut p = Proxy::new([1; 12], [0, 0, 0, 7], false);
        if c.idx % 2 == 0 {
            let mut h = vec![];
            let width = c.rng.range(1, 40);
            for i in 0..n {
                let ch = gen_chg(&mut c.rng, base + i, i as u32);
                h.push(mk_chg(&ch));
                if h.len() > width {
                    h.remove(0);
                }
                let want = base + i;
                while p.mark < want as i128 && !c.rng.chance(1, 8) {
                    p.next(c, &h)?;
                }
            }
            while p.next(c, &h)?.is_some() {}
        } else {
            let h: Vec<v::CacheChange> = (0..n).map(|i| mk_chg(&gen_chg(&mut c.rng, base + (i * 7919) % n, i as u32))).collect();
            p.unsent(c, &h)?;
            for _ in 0..60 {
                p.next(c, &h)?;
            }
            p.unsent(c, &h)?;
        }
        c.count("huge_histories", 1);
        c.nontrivial(&[base.to_le_bytes(), (p.got.len() as i64).to_le_bytes()].concat());
        Ok(())
    });
    for w in ["handed_out", "nothing_unsent", "unsent_queries", "history_removals", "drained"] {
        x.require(w, 100 * x.scale.min(100) / 100);
    }
}

// ------------------------------------------------------------------- C20

/// A writer's configuration as bytes, for comparison.
#[derive(Clone, Debug, PartialEq)]
pub struct Config {
    pub prefix: [u8; 12],
    pub eid: [u8; 4],
    pub keyed: bool,
    pub reliability: u32,
    pub uni: Loc,
    pub multi: Loc,
    pub push: bool,
    pub durations: [[u8; 8]; 3],
}
pub struct Wr {
    pub w: v::MonitoredStatelessWriter,
    pub cfg: Config,
    pub last: i64,
}
pub fn gen_config(r: &mut Rng) -> Config {
    Config {
        prefix: r.arr(),
        eid: r.arr(),
        keyed: r.bool(),
        reliability: r.u32v(),
        uni: gen_loc(r),
        multi: gen_loc(r),
        push: r.bool(),
        durations: [r.arr(), r.arr(), r.arr()],
    }
}
pub fn entity(c: &Config) -> v::EntityAttributes {
    v::EntityAttributes { guid: mk_guid(c.prefix, c.eid) }
}
pub fn endpoint(c: &Config) -> v::EndpointAttributes {
    v::EndpointAttributes {
        topic_kind: if c.keyed { v::TopicKind_t::WITH_KEY } else { v::TopicKind_t::NO_KEY },
        reliability_level: read(false, &c.reliability.to_be_bytes()),
        unicast_locator_list: mk_loc(&c.uni),
        multicast_locator_list: mk_loc(&c.multi),
    }
}
pub fn writer_attrs(c: &Config, last: i64) -> v::WriterAttributes {
    v::WriterAttributes {
        push_mode: c.push,
        heartbeat_period: read(false, &c.durations[0]),
        nack_response_delay: read(false, &c.durations[1]),
        nack_suppression_duration: read(false, &c.durations[2]),
        last_change_sequence_number: mk_sn(last),
    }
}
impl Wr {
    pub fn new(r: &mut Rng, cfg: Config, last: i64) -> Wr {
        let resend: [u8; 8] = r.arr();
        let w = v::MonitoredStatelessWriter::new(entity(&cfg), endpoint(&cfg), writer_attrs(&cfg, last), read(false, &resend));
        Wr { w, cfg, last }
    }
    pub fn check(&self, c: &mut Case) -> Verdict {
        let (en, ep, wa) = (self.w.as_entity(), self.w.as_endpoint(), self.w.as_writer());
        let d = |x: &v::Duration_t| -> [u8; 8] { write(false, x).try_into().unwrap_or([0xee; 8]) };
        let got = Config {
            prefix: en.guid.guid_prefix.entity_key,
            eid: eid(&en.guid.entity_id),
            keyed: ep.topic_kind == v::TopicKind_t::WITH_KEY,
            reliability: u32::from_be_bytes(write(false, &ep.reliability_level).try_into().unwrap_or([0xee; 4])),
            uni: loc(&ep.unicast_locator_list),
            multi: loc(&ep.multicast_locator_list),
            push: wa.push_mode,
            durations: [d(&wa.heartbeat_period), d(&wa.nack_response_delay), d(&wa.nack_suppression_duration)],
        };
        ensure!(got == self.cfg, "the writer's configuration is {got:?}, it was given {:?}", self.cfg);
        let l = sn(&wa.last_change_sequence_number);
        ensure!(l == self.last, "the writer reports {l} as its latest number, it is {}", self.last);
        c.count("configurations_checked", 1);
        Ok(())
    }
    pub fn change(&mut self, c: &mut Case, kind: u8, handle: [u8; 16]) -> Result<v::CacheChange, Bad> {
        let ch = self.w.new_change(mk_ckind(kind), v::Data {}, v::InstanceHandle_t { entity_key: handle });
        self.last += 1;
        let want = Chg { sn: self.last, kind, prefix: self.cfg.prefix, eid: self.cfg.eid, handle };
        let got = chg(&ch);
        c.note(|| format!("new change {got:?}"));
        ensure!(got == want, "the new change is {got:?}, expected {want:?}");
        c.count("changes", 1);
        Ok(ch)
    }
}
fn c20_case(c: &mut Case) -> Verdict {
    let k = 1 + c.rng.usize(4);
    let n = *c.rng.pick(&[3usize, 20, 60, 300]);
    let mut ws = vec![];
    let twin = gen_config(&mut c.rng);
    for _ in 0..k {
        let start = match c.rng.below(4) {
            0 => 0,
            1 => *c.rng.pick(&[u32::MAX as i64 - 3, u32::MAX as i64, i32::MAX as i64 - 2, -3, i64::MIN, i64::MAX - n as i64, (7 << 32) - 2]),
            _ => c.rng.i64v().min(i64::MAX - n as i64),
        };
        // two writers may well be configured alike
        let cfg = if c.rng.bool() { twin.clone() } else { gen_config(&mut c.rng) };
        let w = Wr::new(&mut c.rng, cfg, start);
        w.check(c)?;
        ws.push(w);
    }
    for _ in 0..n {
        let i = c.rng.usize(k);
        if ws[i].last == i64::MAX {
            continue;
        }
        let (kind, handle) = (c.rng.below(3) as u8, if c.rng.chance(1, 3) { [0; 16] } else { c.rng.arr() });
        let h2 = handle;
        ws[i].change(c, kind, h2)?;
        if c.rng.chance(1, 4) {
            let j = c.rng.usize(k);
            ws[j].check(c)?;
        }
    }
    for w in &ws {
        w.check(c)?;
    }
    c.nontrivial(format!("{:?}", ws.iter().map(|w| w.last).collect::<Vec<_>>()).as_bytes());
    c.sample(|| format!("{k} writers, {n} changes, latest numbers {:?}", ws.iter().map(|w| w.last).collect::<Vec<_>>()));
    Ok(())
}
pub fn c20(x: &Ctx) {
    x.cases("writers", 30_000, c20_case);
    // long runs across the places where halves of the number wrap
    x.cases("long", 16, |c| {
        let start = *c.rng.pick(&[0, u32::MAX as i64 - 100, i32::MAX as i64 - 100, 65_000, (1 << 40) - 50_000, -10_000, i64::MAX - 100_000]);
        let cfg = gen_config(&mut c.rng);
        let mut w = Wr::new(&mut c.rng, cfg, start);
        for _ in 0..70_000 {
            let h = [c.rng.u8(); 16];
            let k = c.rng.below(3) as u8;
            w.change(c, k, h)?;
        }
        c.count("long_runs", 1);
        c.nontrivial_u64(start as u64);
        w.check(c)
    });
    // all kinds after all kinds
    x.sweep("kinds", 27, |c| {
        let cfg = gen_config(&mut c.rng);
        let mut w = Wr::new(&mut c.rng, cfg, 0);
        for k in [c.idx % 3, c.idx / 3 % 3, c.idx / 9] {
            w.change(c, k as u8, [k as u8; 16])?;
            w.check(c)?;
        }
        c.nontrivial_u64(c.idx);
        Ok(())
    });
    x.require("changes", 1000 * x.scale.min(100) / 100);
    x.require("configurations_checked", 100 * x.scale.min(100) / 100);
}

// ------------------------------------------------------------------- C21

#[cfg(not(rtps_verif_endpoints))]
pub fn c21(x: &Ctx) {
    x.inconclusive("built without rtps_verif_endpoints".into());
}
#[cfg(rtps_verif_endpoints)]
pub fn c21(x: &Ctx) {
    use v::{Endpoint, Entity, Writer};
    fn near(r: &mut Rng, g: &([u8; 12], [u8; 4])) -> ([u8; 12], [u8; 4]) {
        let mut g = *g;
        if r.bool() {
            g.0[r.usize(12)] ^= 1 << r.below(8);
        } else {
            g.1[r.usize(4)] ^= 1 << r.below(8);
        }
        g
    }
    x.cases("matched readers", 60_000, |c| {
        let cfg = gen_config(&mut c.rng);
        let last = c.rng.i64v();
        let mut w = v::StatefulWriter::verif_new(entity(&cfg), endpoint(&cfg), writer_attrs(&cfg, last));
        let first: ([u8; 12], [u8; 4]) = (c.rng.arr(), c.rng.arr());
        let mut pool = vec![first];
        for _ in 0..c.rng.below(5) {
            let g = if c.rng.bool() { near(&mut c.rng, &first) } else { (c.rng.arr(), c.rng.arr()) };
            pool.push(g);
        }
        // one long history; each proxy is recognised by how far it has got
        let h: Vec<v::CacheChange> = (1..=40).map(|i| mk_chg(&gen_chg(&mut c.rng, i, i as u32))).collect();
        let mut model: Vec<(([u8; 12], [u8; 4]), i128)> = vec![];
        let n = c.rng.usize(14);
        let mut lookup = |c: &mut Case, w: &v::StatefulWriter, model: &Vec<(([u8; 12], [u8; 4]), i128)>, g: ([u8; 12], [u8; 4])| -> Verdict {
            let want: Vec<i128> = model.iter().filter(|x| x.0 == g).map(|x| x.1).collect();
            let mut got = 0;
            for (i, p) in w.matched_reader_lookup(mk_guid(g.0, g.1)).take(100).enumerate() {
                ensure!(p.remote_reader_guid == mk_guid(g.0, g.1), "looking up {g:02x?} gave a proxy for {:02x?}", p.remote_reader_guid);
                ensure!(i < want.len(), "looking up {g:02x?} gave more than the {} proxies added", want.len());
                check_unsent(c, p, want[i], &h)?;
                got += 1;
            }
            ensure!(got == want.len(), "looking up {g:02x?} gave {got} of the {} proxies added", want.len());
            c.count(if got > 1 { "lookups_with_several" } else if got == 1 { "lookups_with_one" } else { "lookups_with_none" }, 1);
            Ok(())
        };
        for _ in 0..n {
            let g = *c.rng.pick(&pool);
            let mut p = v::ReaderProxy::new(mk_guid(g.0, g.1), c.rng.bool());
            let k = c.rng.below(20);
            for _ in 0..k {
                p.next_unsent_change(&h);
            }
            let mark = if k == 0 { i64::MIN as i128 } else { k as i128 };
            c.note(|| format!("add a proxy for {g:02x?} that has got {k} changes"));
            w.matched_reader_add(p);
            model.push((g, mark));
            c.count("proxies_added", 1);
            if c.rng.bool() {
                let g = *c.rng.pick(&pool);
                lookup(c, &w, &model, g)?;
            }
        }
        for g in pool.clone() {
            lookup(c, &w, &model, g)?;
            let g = near(&mut c.rng, &g);
            lookup(c, &w, &model, g)?;
        }
        let got = (w.as_entity().guid.guid_prefix.entity_key, eid(&w.as_entity().guid.entity_id), sn(&w.as_writer().last_change_sequence_number), loc(&w.as_endpoint().unicast_locator_list));
        ensure!(got == (cfg.prefix, cfg.eid, last, cfg.uni.clone()), "the stateful writer's configuration is {got:?}");
        c.nontrivial(format!("{:?}", model).as_bytes());
        c.sample(|| format!("{} proxies of {} GUIDs", model.len(), pool.len()));
        Ok(())
    });
    x.cases("locator list", 60_000, |c| {
        let cfg = gen_config(&mut c.rng);
        let mut w = Wr::new(&mut c.rng, cfg, 0);
        let first = gen_loc(&mut c.rng);
        let mut pool = vec![first.clone()];
        for _ in 0..c.rng.below(5) {
            let mut l = first.clone();
            match c.rng.below(4) {
                0 => l.kind = gen_kind(&mut c.rng),
                1 => l.port ^= 1 << c.rng.below(32),
                2 => l.addr[c.rng.usize(16)] ^= 1 << c.rng.below(8),
                _ => l = gen_loc(&mut c.rng),
            }
            pool.push(l);
        }
        let mut model: Vec<(Loc, bool)> = vec![];
        let n = c.rng.usize(40);
        for k in 0..n {
            let e = (c.rng.pick(&pool).clone(), c.rng.chance(1, 3));
            let rl = v::ReaderLocator::verif_new(mk_loc(&e.0), e.1);
            match c.rng.below(8) {
                0..=2 => {
                    c.note(|| format!("remove {e:?}"));
                    let before = model.len();
                    w.w.reader_locator_remove(rl);
                    model.retain(|x| *x != e);
                    c.count(match before - model.len() { 0 => "removals_of_none", 1 => "removals_of_one", _ => "removals_of_several" }, 1);
                }
                3 => {
                    let h = c.rng.arr();
                    w.change(c, 0, h)?;
                }
                _ => {
                    c.note(|| format!("add {e:?}"));
                    w.w.reader_locator_add(rl);
                    model.push(e);
                    c.count("locators_added", 1);
                }
            }
            let got = w.w.reader_locators();
            ensure!(got.len() == model.len(), "the locator list has {} entries, expected {}: {got:?}", got.len(), model.len());
            for (i, (g, m)) in got.iter().zip(&model).enumerate() {
                ensure!(*g == v::ReaderLocator::verif_new(mk_loc(&m.0), m.1), "entry {i} of the locator list is {g:?}, expected {m:?}");
                // equality itself could be at fault
                if k + 1 < n {
                    continue;
                }
                let s = format!("{g:?}");
                ensure!(s == format!("{:?}", v::ReaderLocator::verif_new(mk_loc(&m.0), m.1)), "entry {i} of the locator list is {s}, expected {m:?}");
            }
            w.check(c)?;
        }
        c.nontrivial(format!("{:?}", model).as_bytes());
        c.sample(|| format!("{n} operations on {} locators, {} entries left", pool.len(), model.len()));
        Ok(())
    });
    // big books
    x.cases("very many readers", 3, |c| {
        let n: usize = if x.scale < 100 || x.guided.is_some() { 300 } else { *c.rng.pick(&[5_000usize, 40_000, 70_000]) };
        let cfg = gen_config(&mut c.rng);
        let mut w = v::StatefulWriter::verif_new(entity(&cfg), endpoint(&cfg), writer_attrs(&cfg, 0));
        let h: Vec<v::CacheChange> = (1..=4).map(|i| mk_chg(&gen_chg(&mut c.rng, i, i as u32))).collect();
        let (pre, spread) = (c.rng.arr::<12>(), *c.rng.pick(&[1usize, 3, 50_000_000]));
        let guid = |i: usize| {
            let mut p = pre;
            p[8..].copy_from_slice(&((i / spread.min(3)) as u32).to_be_bytes());
            (p, [0, 0, (i % 3) as u8, 7])
        };
        let mut model: Vec<(([u8; 12], [u8; 4]), i128)> = vec![];
        for i in 0..n {
            let g = if spread > 3 && c.rng.chance(1, 50) { guid(c.rng.usize(i + 1)) } else { guid(i) };
            let mut p = v::ReaderProxy::new(mk_guid(g.0, g.1), c.rng.bool());
            let k = c.rng.below(4);
            for _ in 0..k {
                p.next_unsent_change(&h);
            }
            w.matched_reader_add(p);
            model.push((g, if k == 0 { i64::MIN as i128 } else { k as i128 }));
            if i % (n / 40) == 0 || i + 1 == n {
                for q in [i, 0, c.rng.usize(i + 1), c.rng.usize(i + 1), i + 1] {
                    let g = model.get(q).map(|x| x.0).unwrap_or(([9; 12], [9; 4]));
                    let want: Vec<i128> = model.iter().filter(|x| x.0 == g).map(|x| x.1).collect();
                    let mut got = 0;
                    for (k, p) in w.matched_reader_lookup(mk_guid(g.0, g.1)).enumerate() {
                        ensure!(p.remote_reader_guid == mk_guid(g.0, g.1), "among {} readers, looking up {g:02x?} gave a proxy for {:02x?}", i + 1, p.remote_reader_guid);
                        ensure!(k < want.len(), "among {} readers, looking up {g:02x?} gave more than the {} proxies added", i + 1, want.len());
                        check_unsent(c, p, want[k], &h)?;
                        got += 1;
                    }
                    ensure!(got == want.len(), "among {} readers, looking up {g:02x?} gave {got} of the {} proxies added", i + 1, want.len());
                    c.count("lookups_in_big_books", 1);
                }
            }
        }
        c.nontrivial(format!("{n} {pre:?}").as_bytes());
        Ok(())
    });
    x.cases("very many locators", 3, |c| {
        let n: usize = if x.scale < 100 || x.guided.is_some() { 300 } else { *c.rng.pick(&[5_000usize, 40_000, 70_000]) };
        let cfg = gen_config(&mut c.rng);
        let mut w = Wr::new(&mut c.rng, cfg, 0);
        let first = gen_loc(&mut c.rng);
        let nth = |i: usize| {
            let mut l = first.clone();
            l.addr[12..].copy_from_slice(&(i as u32).to_be_bytes());
            (l, i % 5 == 0)
        };
        let mut model: Vec<(Loc, bool)> = vec![];
        for i in 0..n {
            let e = nth(if c.rng.chance(1, 50) { c.rng.usize(i + 1) } else { i });
            w.w.reader_locator_add(v::ReaderLocator::verif_new(mk_loc(&e.0), e.1));
            model.push(e);
            if i % (n / 20) == n / 40 {
                let e = model[c.rng.usize(model.len())].clone();
                w.w.reader_locator_remove(v::ReaderLocator::verif_new(mk_loc(&e.0), e.1));
                model.retain(|x| *x != e);
            }
            if i % (n / 10) == 0 || i + 1 == n {
                let got = w.w.reader_locators();
                ensure!(got.len() == model.len(), "the locator list has {} entries, expected {}", got.len(), model.len());
                for (k, (g, m)) in got.iter().zip(&model).enumerate() {
                    ensure!(*g == v::ReaderLocator::verif_new(mk_loc(&m.0), m.1), "entry {k} of {} in the locator list is {g:?}, expected {m:?}", model.len());
                }
                c.count("long_lists_compared", 1);
            }
        }
        c.nontrivial(format!("{n} {first:?}").as_bytes());
        Ok(())
    });
    for k in ["lookups_in_big_books", "long_lists_compared"] {
        x.require(k, 10);
    }
    for k in ["proxies_added", "lookups_with_none", "lookups_with_one", "lookups_with_several", "locators_added", "removals_of_none", "removals_of_one", "removals_of_several"] {
        x.require(k, 50 * x.scale.min(100) / 100);
    }
}

// ------------------------------------------------------------------- C25

/// One side's receiver, fed with messages of the other.
pub struct Link {
    rx: Recv,
}
impl Link {
    /// Sends entity submessages as one message; everything must arrive as sent.
    fn send(&mut self, c: &mut Case, subs: Vec<(u8, Vec<u8>, bool)>) -> Result<Vec<Item>, Bad> {
        let mut b = header_bytes((2, 2), [1, 7], [0x11; 12]);
        for (kind, body, le) in subs {
            let flags = (c.rng.u8() & 0xfe) | le as u8;
            b.extend(frame(kind, flags, body.len() as u16, &body));
            if c.rng.chance(1, 6) {
                b.extend(frame(PAD, 1, 4, &[0; 4]));
            }
        }
        c.note(|| format!("on the wire: {}", hex(&b)));
        // Each datagram gets a decoder of its own; arriving in pieces or not.
        let mut rx = Recv::new(1);
        let mut items = vec![];
        let cut = c.rng.usize(b.len() + 1);
        for part in [&b[..cut], &b[cut..]] {
            rx.feed(part);
            for o in rx.drain() {
                match o {
                    Out::Item(i) => items.push(i),
                    Out::Err(e) => return bad(format!("a message between writer and reader was answered with {e:?}: {}", hex(&b))),
                    Out::None => {}
                }
            }
        }
        self.rx = rx;
        c.count("wire_messages", 1);
        Ok(items)
    }
}
struct Rdr {
    p: Proxy,
    /// what it got by being served
    served: Vec<Chg>,
    /// what it ends up having, over a lossy path
    have: BTreeMap<i64, Chg>,
    irrelevant: BTreeSet<i64>,
    count: i32,
}
fn c25_case(c: &mut Case) -> Verdict {
    let n = *c.rng.pick(&[10usize, 40, 120]);
    pipeline(c, n, 0)
}
/// `backlog` changes are written before anything else happens.
fn pipeline(c: &mut Case, n: usize, backlog: usize) -> Verdict {
    let start = match c.rng.below(10) {
        // a writer that goes on from anywhere, also across zero
        0 => c.rng.i64v().clamp(i64::MIN + 1, i64::MAX - 5_000),
        1 => -(c.rng.below(40) as i64),
        _ => *c.rng.pick(&[0i64, 0, 0, 5, u32::MAX as i64 - 20, (3 << 32) - 9, i32::MAX as i64 - 5, 1 << 50]),
    };
    let cfg = gen_config(&mut c.rng);
    let (wprefix, weid) = (cfg.prefix, cfg.eid);
    let mut w = Wr::new(&mut c.rng, cfg, start);
    let mut cache = Cache::new();
    let mut hist: Vec<v::CacheChange> = vec![];
    let mut model: BTreeMap<i64, Chg> = BTreeMap::new();
    let mut created: Vec<i64> = vec![];
    let mut rs: Vec<Rdr> = vec![];
    let mut link = Link { rx: Recv::new(1) };
    let mut sig = vec![];
    let loss = c.rng.below(7);
    let mut hb = 0i32;
    for step in 0..n + backlog {
        let op = if step < backlog { if step % 29 == 28 { 8 } else { 0 } } else { c.rng.below(20) };
        sig.push(op as u8);
        match op {
            0..=7 => {
                let (k, h) = (c.rng.below(3) as u8, c.rng.arr());
                let ch = w.change(c, k, h)?;
                let plain = chg(&ch);
                ensure!(created.last().map_or(true, |l| l + 1 == plain.sn), "change {} follows {:?}", plain.sn, created.last());
                created.push(plain.sn);
                model.insert(plain.sn, plain.clone());
                hist.push(mk_chg(&plain));
                cache.add_change(ch);
            }
            8 if !model.is_empty() => {
                let s = *model.keys().nth(c.rng.usize(model.len())).unwrap();
                c.note(|| format!("the writer drops {s}"));
                model.remove(&s);
                hist.retain(|x| sn(&x.sequence_number) != s);
                cache.remove_change(mk_sn(s));
                c.count("dropped_from_history", 1);
            }
            9 if rs.len() < 4 => {
                c.note(|| format!("reader {} joins", rs.len()));
                rs.push(Rdr { p: Proxy::new([rs.len() as u8; 12], [0, 0, 1, 7], false), served: vec![], have: BTreeMap::new(), irrelevant: BTreeSet::new(), count: 0 });
            }
            _ if !rs.is_empty() => {
                let i = c.rng.usize(rs.len());
                sig.push(i as u8);
                let k = c.rng.below(if i == 0 { 4 } else { 2 });
                for _ in 0..k {
                    serve(c, &mut rs[i], &hist, &cache, &model, loss)?;
                }
            }
            _ => {}
        }
        if step % 7 == 3 && !rs.is_empty() {
            let i = c.rng.usize(rs.len());
            hb += 1;
            repair(c, &mut link, &mut rs[i], &cache, &model, (wprefix, weid), hb, start)?;
        }
    }
    // everyone is served to the end
    for r in rs.iter_mut() {
        while serve(c, r, &hist, &cache, &model, loss)? {}
        let got: Vec<i64> = r.served.iter().map(|x| x.sn).collect();
        for s in model.keys() {
            ensure!(got.contains(s), "a reader served to the end was never handed change {s}");
        }
        ensure!(got.windows(2).all(|p| p[0] < p[1]), "changes were handed out as {got:?}");
        for g in &got {
            ensure!(created.contains(g), "change {g} was handed out but never created");
        }
        // and repaired until nothing is missing
        let mut rounds = 0;
        while model.keys().any(|s| !r.have.contains_key(s)) {
            hb += 1;
            repair(c, &mut link, r, &cache, &model, (wprefix, weid), hb, start)?;
            rounds += 1;
            ensure!(rounds < 60 + backlog / 8, "after {rounds} rounds of heartbeat and acknack a reader still misses changes");
        }
        for (s, ch) in &model {
            ensure!(r.have.get(s) == Some(ch), "a reader has change {s} as {:?}, it is {ch:?}", r.have.get(s));
        }
        c.count("readers_complete", 1);
    }
    c.nontrivial(&[&sig[..], &start.to_le_bytes()].concat());
    c.sample(|| format!("{} changes from {start}, {} left, {} readers got {:?}", created.len(), model.len(), rs.len(), rs.iter().map(|r| r.served.len()).collect::<Vec<_>>()));
    Ok(())
}
fn serve(c: &mut Case, r: &mut Rdr, hist: &[v::CacheChange], cache: &Cache, model: &BTreeMap<i64, Chg>, loss: u64) -> Result<bool, Bad> {
    let Some(s) = r.p.next(c, hist)? else { return Ok(false) };
    ensure!(!r.served.iter().any(|x| x.sn == s), "change {s} was handed out twice");
    let Some(want) = model.get(&s) else { return bad(format!("change {s} was handed out after it was dropped")) };
    let got = cache.get_change(mk_sn(s)).map(chg);
    ensure!(got.as_ref() == Some(want), "change {s} to be sent is {got:?} in the history, it was created as {want:?}");
    r.served.push(want.clone());
    if c.rng.below(10) >= loss {
        r.have.insert(s, want.clone());
    }
    c.count("served", 1);
    Ok(true)
}
/// Heartbeat -> AckNack -> resent changes and Gap, over the wire.
fn repair(c: &mut Case, link: &mut Link, r: &mut Rdr, cache: &Cache, model: &BTreeMap<i64, Chg>, me: ([u8; 12], [u8; 4]), hb: i32, start: i64) -> Verdict {
    let (Some(first), Some(last)) = (cache.get_seq_num_min().map(|x| sn(&x)), cache.get_seq_num_max().map(|x| sn(&x))) else { return Ok(()) };
    ensure!(Some(&first) == model.keys().next() && Some(&last) == model.keys().last(), "the history announces {first}..{last}, it holds {:?}", model.keys().collect::<Vec<_>>());
    let reid = [0, 0, 1, 7];
    // writer -> reader
    let le = c.rng.bool();
    let h = v::Heartbeat { reader_id: mk_eid(reid), writer_id: mk_eid(me.1), first_sn: mk_sn(first), last_sn: mk_sn(last), count: hb.into() };
    let items = link.send(c, vec![(HEARTBEAT, write(le, &h), le)])?;
    let (first, last) = match &items[..] {
        [Item::Heartbeat { reader, writer, first: f, last: l, count, .. }] if *reader == reid && *writer == me.1 && *f == first && *l == last && *count == hb => (*f, *l),
        _ => return bad(format!("a heartbeat {first}..{last} (count {hb}) arrived as {items:?}")),
    };
    // reader -> writer: everything missing within a window of 256
    let missing: Vec<i64> = (first.max(start)..=last).filter(|s| !r.have.contains_key(s) && !r.irrelevant.contains(s)).collect();
    let Some(base) = missing.first().copied() else { return Ok(()) };
    let want: Vec<i64> = missing.iter().copied().filter(|s| *s < base + 256).collect();
    let mut set = v::SequenceNumberSet_t::new(mk_sn(base));
    let mut order = want.clone();
    if c.rng.bool() {
        order.reverse();
    }
    for s in &order {
        ensure!(set.insert(mk_sn(*s)), "missing number {s} was not accepted into a set from {base}");
    }
    r.count += 1;
    let le = c.rng.bool();
    let a = v::AckNack { reader_id: mk_eid(reid), writer_id: mk_eid(me.1), reader_sn_state: set, count: r.count.into() };
    let items = link.send(c, vec![(ACKNACK, write(le, &a), le)])?;
    let asked = match &items[..] {
        [Item::AckNack { base: b, members, count, reader, writer, .. }] if *b == base && *count == r.count && *reader == reid && *writer == me.1 => members.clone(),
        _ => return bad(format!("an acknack for {want:?} arrived as {items:?}")),
    };
    ensure!(asked == want, "a request for {want:?} arrived as one for {asked:?}");
    c.count("numbers_requested", asked.len() as u64);
    // writer -> reader: resend, or declare irrelevant
    let gone: Vec<i64> = asked.iter().copied().filter(|s| cache.get_change(mk_sn(*s)).is_none()).collect();
    for s in &asked {
        match (cache.get_change(mk_sn(*s)).map(chg), model.get(s)) {
            (Some(g), Some(m)) if g == *m => {
                if c.rng.chance(3, 4) {
                    r.have.insert(*s, g);
                }
                c.count("resent", 1);
            }
            (None, None) => {}
            (g, m) => return bad(format!("requested change {s} is {g:?} in the history, expected {m:?}")),
        }
    }
    if let Some(b) = gone.first().copied() {
        let mut set = v::SequenceNumberSet_t::new(mk_sn(b));
        for s in &gone {
            set.insert(mk_sn(*s));
        }
        let le = c.rng.bool();
        let g = v::Gap { reader_id: mk_eid(reid), writer_id: mk_eid(me.1), gap_start: mk_sn(b), gap_list: set };
        let items = link.send(c, vec![(GAP, write(le, &g), le)])?;
        match &items[..] {
            [Item::Gap { start, base, members, .. }] if *start == b && *base == b && *members == gone => {
                r.irrelevant.extend(members);
                c.count("declared_irrelevant", members.len() as u64);
            }
            _ => return bad(format!("a gap {gone:?} arrived as {items:?}")),
        }
    }
    Ok(())
}
/// A change sent in fragments: HeartbeatFrag -> NackFrag -> resent fragments,
/// over the wire, until none is missing.
fn fragments(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let (reid, weid): ([u8; 4], [u8; 4]) = (r.arr(), r.arr());
    let n = match r.below(4) {
        0 => r.range(1, 4),
        1 => *r.pick(&[31usize, 32, 33, 255, 256, 257, 300]),
        _ => r.range(1, 700),
    } as u32;
    // numbering starts at 1; nothing here depends on that
    let from = match r.below(6) {
        0 => 0,
        1 => u32::MAX - (n - 1),
        2 => r.u32v().min(u32::MAX - (n - 1)),
        _ => 1,
    };
    let to = from + (n - 1);
    let change = *r.pick(&[1i64, 2, u32::MAX as i64, 1 << 32, i64::MAX]);
    let loss = r.range(1, 9) as u64;
    let mut have: BTreeSet<u32> = (from..=to).filter(|_| !r.chance(loss, 10)).collect();
    let mut link = Link { rx: Recv::new(1) };
    let mut count = r.u32() as i32;
    for round in 0.. {
        ensure!(round < 200 + n / 8, "after {round} rounds fragments {:?} of {from}..{to} are still missing", (from..=to).filter(|f| !have.contains(f)).take(9).collect::<Vec<_>>());
        count = count.wrapping_add(1);
        let le = c.rng.bool();
        let h = v::HeartbeatFrag { reader_id: mk_eid(reid), writer_id: mk_eid(weid), writer_sn: mk_sn(change), last_fragment_num: to.into(), count: count.into() };
        let items = link.send(c, vec![(HEARTBEAT_FRAG, write(le, &h), le)])?;
        let last = match &items[..] {
            [Item::HeartbeatFrag { reader, writer, sn, last_frag, count: n }] if *reader == reid && *writer == weid && *sn == change && *last_frag == to && *n == count => *last_frag,
            _ => return bad(format!("the announcement of fragment {to} of change {change} (count {count}) arrived as {items:?}")),
        };
        let missing: Vec<u32> = (from..=last).filter(|f| !have.contains(f)).collect();
        let Some(base) = missing.first().copied() else { break };
        // one window after the other, in one message or only the first
        let mut subs = vec![];
        let mut wants: Vec<(u32, Vec<u32>)> = vec![];
        let all = c.rng.bool();
        let mut b = base;
        loop {
            let want: Vec<u32> = missing.iter().copied().filter(|f| *f >= b && f - b < 256).collect();
            let mut set = v::FragmentNumberSet_t::new(b.into());
            for f in &want {
                ensure!(set.insert((*f).into()), "missing fragment {f} was not accepted into a set from {b}");
            }
            let le = c.rng.bool();
            let k = v::NackFrag { reader_id: mk_eid(reid), writer_id: mk_eid(weid), writer_sn: mk_sn(change), fragment_number_state: set, count: count.into() };
            subs.push((NACK_FRAG, write(le, &k), le));
            wants.push((b, want));
            match missing.iter().copied().find(|f| *f > b && f - b >= 256) {
                Some(next) if all => b = next,
                _ => break,
            }
        }
        let items = link.send(c, subs)?;
        ensure!(items.len() == wants.len(), "{} requests for fragments arrived as {}", wants.len(), items.len());
        for (i, (b, want)) in items.iter().zip(&wants) {
            match i {
                Item::NackFrag { reader, writer, sn, base, members, count: n } if *reader == reid && *writer == weid && *sn == change && *base == *b && *n == count => {
                    ensure!(members == want, "a request for fragments {want:?} arrived as one for {members:?}");
                    c.count("fragments_requested", members.len() as u64);
                    for f in members {
                        if !c.rng.chance(loss, 12) {
                            have.insert(*f);
                        }
                    }
                }
                i => return bad(format!("a request for fragments {want:?} arrived as {i:?}")),
            }
        }
    }
    ensure!(have.iter().copied().eq(from..=to), "fragments {have:?} instead of {from}..{to}");
    c.count("changes_from_fragments", 1);
    c.nontrivial(&[&from.to_le_bytes()[..], &to.to_le_bytes(), &change.to_le_bytes()].concat());
    Ok(())
}
pub fn c25(x: &Ctx) {
    x.cases("pipelines", 12_000, c25_case);
    // what only long histories show
    x.cases("long histories", 60, |c| {
        let few = x.scale < 100 || x.guided.is_some();
        let backlog = if few { 130 } else { *c.rng.pick(&[130usize, 257, 300, 520, 600, 1030, 2100, 4400]) };
        pipeline(c, 60, backlog)
    });
    x.cases("fragments", 2_000, fragments);
    for w in ["changes_from_fragments", "fragments_requested", "changes", "served", "dropped_from_history", "wire_messages", "numbers_requested", "resent", "declared_irrelevant", "readers_complete"] {
        x.require(w, 50 * x.scale.min(100) / 100);
    }
}
