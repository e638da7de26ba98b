//! Coverage-guided runs: the draws of a case are kept as a tape; tapes that
//! reached something new in the code under test are changed and tried again.
//! Every changed tape is a possible outcome of the generator's own draws, so
//! the monitors judge these cases like any other.
use crate::cov::Map;
use crate::rng::Rng;
use crate::runner::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Draws recorded at most; longer cases are run but not kept.
const LONGEST: usize = 1 << 15;

pub struct Guided {
    pub seconds: f64,
    /// First only ask for the streams there are.
    pub listing: AtomicBool,
    pub streams: Mutex<Vec<(String, f64)>>,
    pub map: Map,
    reached: Mutex<Vec<u8>>,
}

impl Guided {
    pub fn new(seconds: f64, map: Map) -> Guided {
        let reached = Mutex::new(vec![b'0'; map.n as usize]);
        Guided { seconds, listing: AtomicBool::new(true), streams: Mutex::new(vec![]), map, reached }
    }
    pub fn edges(&self) -> Vec<u8> {
        self.reached.lock().unwrap().clone()
    }
    pub fn stream(&self, x: &Ctx, stream: &str, quick: u64, f: Body) {
        let weight = (quick as f64).sqrt().clamp(10.0, 300.0);
        if self.listing.load(Ordering::SeqCst) {
            self.streams.lock().unwrap().push((stream.to_string(), weight));
            return;
        }
        let total: f64 = self.streams.lock().unwrap().iter().map(|s| s.1).sum();
        let slice = Duration::from_secs_f64(self.seconds * weight / total.max(1.0));
        let done = AtomicBool::new(false);
        let slot = AtomicU64::new(0);
        std::thread::scope(|s| {
            let tid = gettid();
            let (slot, done) = (&slot, &done);
            s.spawn(move || x.watch(stream, vec![tid], vec![slot], done));
            self.explore(x, stream, slice, f, slot);
            done.store(true, Ordering::SeqCst);
        });
    }

    fn explore(&self, x: &Ctx, stream: &str, slice: Duration, f: Body, slot: &AtomicU64) {
        let start = Instant::now();
        let mut r = Rng::new(x.seed, &x.prop, stream, u64::MAX);
        let mut seen = vec![0u8; self.map.n as usize];
        let mut corpus = Corpus { all: vec![], shortest: vec![None; self.map.n as usize], hits: vec![0; self.map.n as usize], rarest: vec![] };
        let mut edges: Vec<u32> = vec![];
        let journal = std::fs::File::create(format!("{}.journal.0", x.out)).ok();
        let mut rec: Vec<u64> = Vec::with_capacity(LONGEST);
        let (mut execs, mut kept, mut seeds) = (0u64, 0u64, 0u64);
        let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut sigs = std::collections::HashSet::new();
        let none = Arc::new(vec![]);
        let mut short = 0;
        while x.serious.load(Ordering::Relaxed) < 3 {
            let t = start.elapsed();
            if t >= slice {
                break;
            }
            // random cases first, and now and then
            let fresh = corpus.all.is_empty() || t < slice / 20 || r.chance(1, 50);
            let tape = if fresh {
                seeds += 1;
                none.clone()
            } else {
                Arc::new(change(&mut r, &corpus))
            };
            let idx = execs;
            execs += 1;
            slot.store(execs, Ordering::SeqCst);
            write_tape(&journal, stream, idx, &tape);
            rec.clear();
            let rng = Rng::new(x.seed, &x.prop, stream, idx).on_tape(tape.clone(), rec);
            self.map.clear();
            let (mut case, v) = x.one_with(stream, idx, rng, false, f, false);
            let mut new = false;
            edges.clear();
            self.map.each(|n, class| {
                edges.push(n);
                corpus.hits[n as usize] += 1;
                let s = &mut seen[n as usize];
                if *s & (1 << class) == 0 {
                    *s |= 1 << class;
                    new = true;
                }
            });
            for (k, n) in &case.counts {
                *counts.entry(k).or_insert(0) += n;
            }
            if sigs.len() < 1_000_000 {
                sigs.extend(case.sig.take());
            }
            let (draws, all) = case.rng.recorded();
            if let Err(b) = v {
                x.record(b, |b| {
                    let file = format!("{}.tape.{}", x.out, execs);
                    let _ = std::fs::write(&file, to_text(&tape));
                    let rng = Rng::new(x.seed, &x.prop, stream, idx).on_tape(tape.clone(), vec![]);
                    let (case, v) = x.one_with(stream, idx, rng, true, f, false);
                    let msg = b.msg + again(v, &b.key);
                    (stream.to_string(), idx, msg, case.trace, file)
                });
            } else if all && !draws.is_empty() {
                let mut copy = None;
                if new {
                    let t = Arc::new(draws.clone());
                    corpus.all.push(t.clone());
                    copy = Some(t);
                    kept += 1;
                }
                for e in &edges {
                    let best = &mut corpus.shortest[*e as usize];
                    if best.as_ref().map_or(true, |b| b.len() > draws.len()) {
                        *best = Some(copy.get_or_insert_with(|| Arc::new(draws.clone())).clone());
                    }
                }
            }
            if execs % 256 == 64 {
                corpus.rank();
            }
            if draws.len() < 2 {
                // nothing to guide here
                short += 1;
                if short > 200 && short == execs {
                    rec = draws;
                    break;
                }
            }
            rec = draws;
            if rec.capacity() < LONGEST {
                rec = Vec::with_capacity(LONGEST);
            }
        }
        drop(rec);
        slot.store(u64::MAX, Ordering::SeqCst);
        write_tape(&journal, "-", 0, &none);
        {
            let mut reached = self.reached.lock().unwrap();
            for (i, s) in seen.iter().enumerate() {
                if *s != 0 {
                    reached[i] = b'1';
                }
            }
        }
        let mut rep = x.report.lock().unwrap();
        rep.evaluations += execs;
        for (k, n) in [("guided_cases", execs), ("guided_kept_for_reaching_something_new", kept), ("guided_random_starts", seeds)] {
            *rep.counts.entry(k.into()).or_insert(0) += n;
        }
        for (k, n) in counts {
            *rep.counts.entry(k.into()).or_insert(0) += n;
        }
        rep.sigs.extend(sigs);
    }
}

fn small(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => r.below(256),
        1 => 1 << r.below(64),
        2 => u64::MAX - r.below(4),
        _ => r.below(16),
    }
}
struct Corpus {
    /// every tape that reached something new
    all: Vec<Arc<Vec<u64>>>,
    /// the shortest tape that took each edge, and how many tapes did
    shortest: Vec<Option<Arc<Vec<u64>>>>,
    hits: Vec<u64>,
    /// edges taken, those taken by the fewest first
    rarest: Vec<u32>,
}
impl Corpus {
    fn rank(&mut self) {
        self.rarest = (0..self.hits.len() as u32).filter(|e| self.shortest[*e as usize].is_some()).collect();
        self.rarest.sort_by_key(|e| self.hits[*e as usize]);
    }
    fn pick(&self, r: &mut Rng) -> Arc<Vec<u64>> {
        if !self.rarest.is_empty() && r.chance(3, 4) {
            let n = self.rarest.len();
            let i = r.usize(n) * r.usize(n) / n * r.usize(n) / n;
            if let Some(t) = &self.shortest[self.rarest[i] as usize] {
                return t.clone();
            }
        }
        let n = self.all.len();
        let i = if r.bool() { n - 1 - r.usize(n.min(16)) } else { r.usize(n) };
        self.all[i].clone()
    }
}
fn change(r: &mut Rng, corpus: &Corpus) -> Vec<u64> {
    let one = |r: &mut Rng| corpus.pick(r);
    let mut t: Vec<u64> = one(r).to_vec();
    let times = 1usize << r.below(4);
    for _ in 0..times {
        let n = t.len();
        if n == 0 {
            t.push(r.u64());
            continue;
        }
        let at = match r.below(3) {
            0 => r.usize(n.min(12)),
            _ => r.usize(n),
        };
        match r.below(14) {
            0..=2 => t[at] = r.u64(),
            3 | 4 => t[at] = small(r),
            5 => t[at] = t[at].wrapping_add(1 + r.below(4)),
            6 => t[at] = t[at].wrapping_sub(1 + r.below(4)),
            7 => t[at] ^= 1 << r.below(64),
            8 => t[at] = t[r.usize(n)],
            9 => {
                // a stretch written over another
                let from = r.usize(n);
                let len = (1 + r.usize(16)).min(n - from).min(n - at);
                t.copy_within(from..from + len, at);
            }
            10 => {
                // a stretch put in between: its own, another's, or random
                let src = one(r);
                let len = 1 + r.usize(12);
                let ins: Vec<u64> = match r.below(3) {
                    0 => (0..len).map(|_| r.u64()).collect(),
                    1 => {
                        let from = r.usize(n);
                        t[from..(from + len).min(n)].to_vec()
                    }
                    _ if src.is_empty() => vec![],
                    _ => {
                        let from = r.usize(src.len());
                        src[from..(from + len).min(src.len())].to_vec()
                    }
                };
                t.splice(at..at, ins);
            }
            11 => {
                let len = (1 + r.usize(12)).min(n - at);
                t.drain(at..at + len);
            }
            12 => {
                let src = one(r);
                if !src.is_empty() {
                    let from = if r.bool() { at.min(src.len()) } else { r.usize(src.len()) };
                    t.truncate(at);
                    t.extend_from_slice(&src[from..]);
                }
            }
            _ => t.truncate(at + 1),
        }
        t.truncate(LONGEST);
    }
    t
}

pub fn to_text(t: &[u64]) -> String {
    t.iter().map(|x| format!("{x:x}\n")).collect()
}
pub fn from_text(s: &str) -> Vec<u64> {
    s.lines().filter_map(|l| u64::from_str_radix(l.trim(), 16).ok()).collect()
}
/// The case about to be run, for when the process does not survive it.
fn write_tape(j: &Option<std::fs::File>, stream: &str, idx: u64, t: &[u64]) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = j {
        let mut b = format!("{:<60} {:>20}\n{:>10}\n", stream, idx, t.len()).into_bytes();
        for x in t {
            b.extend_from_slice(&x.to_le_bytes());
        }
        let _ = f.write_all_at(&b, 0);
    }
}
