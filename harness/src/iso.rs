//! C22: instances behave as each would alone, interleaved or in parallel.
//!
//! A case makes a few instances whose inputs resemble each other on purpose
//! (same GUIDs, numbers, messages). Each one's behaviour, step by step, is
//! first recorded alone in a fresh process; then all of them run interleaved
//! on one thread, and in parallel, wandering between threads.
use crate::behav::*;
use crate::ensure;
use crate::real::*;
use crate::recv::{gen_chunks, mutate};
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use rtps_rs::verif_hooks as v;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

/// What the instances of one case have in common.
pub struct Pool {
    messages: Vec<Vec<u8>>,
    prefixes: Vec<[u8; 12]>,
    eids: Vec<[u8; 4]>,
    cfg: Config,
    start: i64,
    base: i64,
    big: bool,
}
impl Pool {
    fn new(r: &mut Rng, small: bool) -> Pool {
        let n = r.range(1, 3);
        let k = if small { 3 } else { 12 };
        Pool {
            messages: (0..n)
                .map(|_| {
                    let n = r.range(1, k);
                    gen_message(r, &OPTS, n, false).bytes()
                })
                .collect(),
            prefixes: (0..2).map(|_| r.arr()).collect(),
            eids: (0..2).map(|_| r.arr()).collect(),
            cfg: gen_config(r),
            start: *r.pick(&[0i64, 0, 1, 7, 1 << 32, 1 << 40]),
            base: *r.pick(&[1i64, 1, 5, 1000, 1 << 33]),
            big: !small,
        }
    }
}

enum Kind {
    Receiver { rx: Recv, chunks: VecDeque<Vec<u8>> },
    Cache { h: Cache, serial: u32 },
    Writer { w: v::MonitoredStatelessWriter },
    Proxies { h: Vec<v::CacheChange>, ps: Vec<v::ReaderProxy> },
    Set { s: Option<v::SequenceNumberSet_t> },
}
pub struct Inst {
    kind: Kind,
    rng: Rng,
    left: usize,
}
const KINDS: [&str; 5] = ["receivers", "caches", "writers", "proxies", "sets"];

impl Inst {
    /// `seed` determines everything the instance is going to do.
    fn new(pool: &Pool, seed: &[u64; 2]) -> Inst {
        let mut r = Rng::new(seed[0], "C22", "instance", seed[1]);
        let steps = if pool.big { r.range(3, 40) } else { r.range(2, 6) };
        let (kind, left) = match r.below(8) {
            0..=3 => {
                let n = r.range(1, 4);
                let mut b = vec![];
                for _ in 0..n {
                    let mut m = r.pick(&pool.messages).clone();
                    if r.chance(1, 5) {
                        mutate(&mut r, &mut m);
                    }
                    b.extend(m);
                    if r.chance(1, 4) {
                        // an explicit end, so that another message can follow
                        b.extend(frame(0x0c, 1, 0, &[]));
                        let z = r.arr::<16>();
                        b.extend(z);
                    }
                }
                let chunks = gen_chunks(&mut r, b.len());
                let lim = if pool.big { 200 } else { 6 };
                let mut at = 0;
                let mut q = VecDeque::new();
                for (i, k) in chunks.iter().enumerate() {
                    let k = if i == lim { b.len() - at } else { *k };
                    q.push_back(b[at..at + k].to_vec());
                    at += k;
                    if i == lim {
                        break;
                    }
                }
                let n = q.len();
                (Kind::Receiver { rx: Recv::new(gen_kind(&mut r)), chunks: q }, n)
            }
            4 => (Kind::Cache { h: Cache::new(), serial: 0 }, steps),
            5 => {
                let w = v::MonitoredStatelessWriter::new(entity(&pool.cfg), endpoint(&pool.cfg), writer_attrs(&pool.cfg, pool.start), read(false, &[0; 8]));
                (Kind::Writer { w }, steps)
            }
            6 => (
                Kind::Proxies {
                    h: vec![],
                    ps: (0..r.range(1, 3)).map(|i| v::ReaderProxy::new(mk_guid(pool.prefixes[i % 2], pool.eids[0]), r.bool())).collect(),
                },
                steps,
            ),
            _ => (Kind::Set { s: Some(v::SequenceNumberSet_t::new(mk_sn(pool.base))) }, steps),
        };
        Inst { kind, rng: r, left }
    }
    fn which(&self) -> usize {
        match self.kind {
            Kind::Receiver { .. } => 0,
            Kind::Cache { .. } => 1,
            Kind::Writer { .. } => 2,
            Kind::Proxies { .. } => 3,
            Kind::Set { .. } => 4,
        }
    }
    /// One step; what was observed.
    fn step(&mut self, pool: &Pool) -> String {
        self.left -= 1;
        let r = &mut self.rng;
        match &mut self.kind {
            Kind::Receiver { rx, chunks } => {
                let part = chunks.pop_front().unwrap_or_default();
                rx.feed(&part);
                let mut out = String::new();
                loop {
                    let o = match guarded(|| rx.next()) {
                        Ok(o) => o,
                        Err(p) => {
                            // not this property's business (C01); the rest of
                            // the input goes to a receiver of its own
                            *rx = Recv::new(1);
                            return format!("{out} panic {}", p.0);
                        }
                    };
                    out += &format!("{o:?} ");
                    if o == Out::None || out.len() > 100_000 {
                        break;
                    }
                }
                format!("{out} | {:?}", rx.ctx())
            }
            Kind::Cache { h, serial } => {
                let n = pool.base + r.below(5) as i64;
                match r.below(4) {
                    0 | 1 => {
                        *serial += 1;
                        let c = gen_chg(r, n, *serial);
                        h.add_change(mk_chg(&c));
                    }
                    2 => h.remove_change(mk_sn(n)),
                    _ => {}
                }
                let got: Vec<_> = (-1..7).map(|d| h.get_change(mk_sn(pool.base + d)).map(chg)).collect();
                format!("{got:?} {:?} {:?}", h.get_seq_num_min(), h.get_seq_num_max())
            }
            Kind::Writer { w } => {
                let c = w.new_change(mk_ckind(r.below(3) as u8), v::Data {}, v::InstanceHandle_t { entity_key: r.arr() });
                let g = &w.as_entity().guid;
                format!("{:?} {:?} {:?} {:?}", chg(&c), sn(&w.as_writer().last_change_sequence_number), g, w.as_endpoint().unicast_locator_list)
            }
            Kind::Proxies { h, ps } => {
                if r.chance(2, 3) {
                    let n = pool.base + r.below(12) as i64;
                    let s = h.len() as u32;
                    h.push(mk_chg(&gen_chg(r, n, s)));
                } else if !h.is_empty() && r.chance(1, 3) {
                    let i = r.usize(h.len());
                    h.remove(i);
                }
                let k = r.usize(ps.len());
                let p = &mut ps[k];
                let un: Vec<_> = p.unsent_changes(h.as_slice()).take(h.len() + 3).map(|x| sn(&x.sequence_number)).collect();
                let nx = if r.bool() { p.next_unsent_change(h.as_slice()).map(chg) } else { None };
                format!("{un:?} {nx:?} {:?}", p.remote_reader_guid)
            }
            Kind::Set { s } => {
                let mut x = s.take().unwrap();
                let n = pool.base + r.below(40) as i64 * r.range(1, 8) as i64 - 3;
                let ins = x.insert(mk_sn(n));
                let le = r.bool();
                let b = write(le, &x);
                let members: Vec<i64> = read::<v::SequenceNumberSet_t>(le, &b).into_iter().take(300).map(|y| sn(&y)).collect();
                if r.bool() {
                    x = read(le, &b);
                }
                *s = Some(x);
                format!("{n} {ins} {members:?}")
            }
        }
    }
}

/// Moves between threads only what may be moved.
struct Parcel(Inst);
unsafe impl Send for Parcel {}
struct Probe<T>(std::marker::PhantomData<T>);
trait NotSend {
    fn movable(&self) -> bool {
        false
    }
}
impl<T> NotSend for Probe<T> {}
trait IsSend {
    fn movable(&self) -> bool {
        true
    }
}
impl<T: Send> IsSend for &Probe<T> {}
fn movable(i: &Inst) -> bool {
    #[allow(unused_imports)]
    macro_rules! ask {
        ($t:ty) => {
            (&&Probe::<$t>(std::marker::PhantomData)).movable()
        };
    }
    match i.kind {
        Kind::Receiver { .. } => ask!(v::MessageReceiver),
        Kind::Cache { .. } => ask!(Cache),
        Kind::Writer { .. } => ask!(v::MonitoredStatelessWriter),
        Kind::Proxies { .. } => ask!(v::ReaderProxy),
        Kind::Set { .. } => ask!(v::SequenceNumberSet_t),
    }
}

struct Plan {
    pool: Pool,
    seeds: Vec<[u64; 2]>,
}
fn plan(r: &mut Rng, small: bool) -> Plan {
    let pool = Pool::new(r, small);
    let n = if small { r.range(2, 3) } else { r.range(2, 6) };
    let mut seeds: Vec<[u64; 2]> = (0..n).map(|_| [r.u64(), r.u64()]).collect();
    if r.chance(1, 4) {
        // twins doing the very same
        let s = seeds[0];
        *seeds.last_mut().unwrap() = s;
    }
    Plan { pool, seeds }
}
fn alone(p: &Plan, k: usize) -> Vec<String> {
    let mut i = Inst::new(&p.pool, &p.seeds[k]);
    let mut out = vec![];
    while i.left > 0 {
        out.push(i.step(&p.pool));
    }
    out
}

/// Entry point of the fresh process: prints one instance's trace.
pub fn solo(seed: u64, spec: &str, small: bool) {
    let f: Vec<&str> = spec.rsplitn(3, ':').collect();
    let (k, idx, stream) = (f[0].parse::<usize>().unwrap(), f[1].parse::<u64>().unwrap(), f[2]);
    let mut r = Rng::new(seed, "C22", stream, idx);
    let p = plan(&mut r, small);
    use std::io::Write;
    let o = std::io::stdout();
    let mut o = std::io::BufWriter::new(o.lock());
    for l in alone(&p, k) {
        writeln!(o, "{}", l.replace('\n', " ")).unwrap();
    }
    writeln!(o, "END").unwrap();
}
fn baseline(x: &Ctx, stream: &str, idx: u64, k: usize, p: &Plan, fresh: bool, small: bool) -> Vec<String> {
    if !fresh {
        return alone(p, k);
    }
    for attempt in 0..3 {
        let exe = std::env::current_exe().unwrap();
        let o = std::process::Command::new(exe)
            .args(["solo", "--seed", &x.seed.to_string(), "--only", &format!("{stream}:{idx}:{k}"), "--scale", if small { "1" } else { "100" }])
            .output();
        if let Ok(o) = o {
            let t = String::from_utf8_lossy(&o.stdout);
            let mut l: Vec<String> = t.lines().map(|s| s.to_string()).collect();
            if l.pop().as_deref() == Some("END") {
                return l;
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(50 << attempt));
    }
    eprintln!("HARNESS-ERROR no baseline from a fresh process");
    std::process::exit(2);
}
fn differs(how: &str, k: usize, n: usize, want: &[String], got: &[String]) -> Verdict {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        let g = g.replace('\n', " ");
        if *w != g {
            let cut = |s: &str| s.chars().take(1500).collect::<String>();
            return bad(format!("instance {k} of {n}, {how}, step {i}: alone in a fresh process it gave\n  {}\nbut here\n  {}", cut(w), cut(&g)));
        }
    }
    if want.len() != got.len() {
        return bad(format!("instance {k} of {n}, {how}: {} steps alone, {} here", want.len(), got.len()));
    }
    Ok(())
}

fn case(x: &Ctx, stream: &'static str, c: &mut Case, fresh: bool, small: bool, threads: usize) -> Verdict {
    let p = plan(&mut c.rng, small);
    let n = p.seeds.len();
    // interleaved first: whatever the instances could leave behind is not
    // there yet for the parallel run only if the process is fresh; that is
    // what the baselines are for
    let mut live: Vec<Option<Inst>> = (0..n).map(|_| None).collect();
    let mut got: Vec<Vec<String>> = vec![vec![]; n];
    let mut todo: Vec<usize> = (0..n).collect();
    let mut switches = 0u64;
    let mut sched = vec![];
    while !todo.is_empty() {
        let t = c.rng.usize(todo.len());
        let k = todo[t];
        let i = live[k].get_or_insert_with(|| Inst::new(&p.pool, &p.seeds[k]));
        switches += 1;
        for _ in 0..*c.rng.pick(&[1usize, 1, 1, 2, 5, 1000]) {
            if i.left == 0 {
                break;
            }
            sched.push(k as u8);
            got[k].push(i.step(&p.pool));
        }
        if i.left == 0 {
            c.count(KINDS[i.which()], 1);
            todo.remove(t);
            live[k] = None;
        }
    }
    c.count("switches_between_instances", switches);
    c.count("steps_interleaved", sched.len() as u64);
    // parallel
    let q: Mutex<VecDeque<(usize, Parcel)>> = Mutex::new((0..n).map(|k| (k, Parcel(Inst::new(&p.pool, &p.seeds[k])))).collect());
    let left = AtomicUsize::new(n);
    let moves = AtomicU64::new(0);
    let all: Vec<Mutex<Vec<String>>> = (0..n).map(|_| Mutex::new(vec![])).collect();
    let salts: Vec<u64> = (0..threads).map(|_| c.rng.u64()).collect();
    std::thread::scope(|s| {
        for salt in &salts {
            let (q, left, moves, all, p) = (&q, &left, &moves, &all, &p);
            s.spawn(move || {
                let mut r = Rng::new(*salt, "C22", "thread", 0);
                while left.load(Ordering::SeqCst) > 0 {
                    let got = q.lock().unwrap_or_else(|e| e.into_inner()).pop_front();
                    let Some((k, mut i)) = got else {
                        std::thread::yield_now();
                        continue;
                    };
                    let stay = !movable(&i.0);
                    let burst = if stay { usize::MAX } else { r.range(1, 6) };
                    let mut outs = vec![];
                    for _ in 0..burst {
                        if i.0.left == 0 {
                            break;
                        }
                        outs.push(i.0.step(&p.pool));
                        for _ in 0..r.below(30) {
                            std::hint::spin_loop();
                        }
                    }
                    all[k].lock().unwrap_or_else(|e| e.into_inner()).extend(outs);
                    moves.fetch_add(1, Ordering::SeqCst);
                    if i.0.left == 0 {
                        drop(i);
                        left.fetch_sub(1, Ordering::SeqCst);
                    } else {
                        q.lock().unwrap_or_else(|e| e.into_inner()).push_back((k, i));
                    }
                }
            });
        }
    });
    c.count("hops_between_threads", moves.load(Ordering::SeqCst));
    let mut steps = 0;
    let mut sig = sched;
    for k in 0..n {
        let want = baseline(x, stream, c.idx, k, &p, fresh, small);
        steps += want.len() as u64;
        sig.extend(want.iter().flat_map(|s| s.bytes()));
        if let Err(mut e) = differs("interleaved with the others on one thread", k, n, &want, &got[k])
            .and_then(|_| differs(&format!("in parallel with the others on {threads} threads"), k, n, &want, &all[k].lock().unwrap()))
        {
            if fresh && baseline(x, stream, c.idx, k, &p, fresh, small) != want {
                e = Bad { key: "unstable".into(), msg: format!("two fresh processes disagree about instance {k} alone, so its behaviour is not a function of its input; {}", e.msg) };
            }
            return Err(e);
        }
    }
    c.count(if fresh { "steps_compared_with_a_fresh_process" } else { "steps_compared" }, steps);
    c.nontrivial(&sig);
    c.sample(|| format!("{n} instances, {steps} steps, {switches} switches on one thread, {} hops between {threads} threads", moves.load(Ordering::SeqCst)));
    Ok(())
}

/// The same few instances over and over: whatever a thread or a process counts
/// or keeps across instances shows in one of them at last.
fn repeated(x: &Ctx, c: &mut Case) -> Verdict {
    let p = plan(&mut c.rng, true);
    let n = p.seeds.len();
    let mut sig = vec![];
    let mut want = vec![];
    for k in 0..n {
        want.push(baseline(x, "repeated", c.idx, k, &p, true, true));
        sig.extend(want[k].iter().flat_map(|s| s.bytes()));
    }
    let reps = 2_000;
    // one after the other, or many alive at the same time
    let alive = if c.idx % 3 == 2 { *c.rng.pick(&[70usize, 300, 2_000]) } else { 1 };
    let mut done = 0;
    while done < reps {
        let mut at = vec![0usize; alive * n];
        let mut live: Vec<Option<Inst>> = (0..alive * n).map(|j| Some(Inst::new(&p.pool, &p.seeds[j % n]))).collect();
        let mut left = live.len();
        while left > 0 {
            for j in 0..live.len() {
                let k = j % n;
                let Some(i) = live[j].as_mut() else { continue };
                if i.left == 0 {
                    live[j] = None;
                    left -= 1;
                    continue;
                }
                let got = i.step(&p.pool).replace('\n', " ");
                if want[k].get(at[j]) != Some(&got) {
                    let full: Vec<String> = want[k][..at[j].min(want[k].len())].iter().cloned().chain([got]).collect();
                    let mut w = want[k].clone();
                    w.truncate(at[j] + 1);
                    let how = format!("the same for the {}. time, {alive} of each alive at a time, after others on the same thread", done + j / n + 1);
                    let mut e = differs(&how, k, n, &w, &full).err().unwrap_or_else(|| Bad { key: "mismatch".into(), msg: format!("instance {k} of {n}: step {} more than alone", at[j]) });
                    if baseline(x, "repeated", c.idx, k, &p, true, true) != want[k] {
                        e = Bad { key: "unstable".into(), msg: format!("two fresh processes disagree about instance {k} alone, so its behaviour is not a function of its input; {}", e.msg) };
                    }
                    return Err(e);
                }
                at[j] += 1;
            }
        }
        for j in 0..at.len() {
            ensure!(at[j] == want[j % n].len(), "instance {} of {n}: {} steps, {} alone", j % n, at[j], want[j % n].len());
        }
        done += alive;
        if alive > 1 {
            c.count("many_alive_at_once", 1);
        }
    }
    c.count("instances_in_long_lived_threads", (done * n) as u64);
    c.nontrivial(&sig);
    Ok(())
}

pub fn c22(x: &Ctx) {
    let small = x.scale < 100;
    if cfg!(miri) || small {
        // under a race detector or an interpreter: only the parallel part matters
        x.cases("small", 40_000, |c| case(x, "small", c, false, true, 3));
    } else {
        x.cases("fresh", 1_500, |c| case(x, "fresh", c, true, false, 3));
        x.cases("same process", 4_000, |c| case(x, "same process", c, false, false, 3));
        x.cases("repeated", 400, |c| repeated(x, c));
        x.require("instances_in_long_lived_threads", 100_000);
        x.require("many_alive_at_once", 20);
        for k in KINDS {
            x.require(k, 200);
        }
        x.require("hops_between_threads", 1000);
        x.require("switches_between_instances", 1000);
    }
}
