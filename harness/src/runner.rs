//! Runs cases in parallel, catches panics of the code under test, watches for
//! endless loops, and keeps score of what was actually observed.
use crate::rng::{hash_bytes, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Bad {
    /// Signature used to recognise listed findings.
    pub key: String,
    pub msg: String,
}
/// Panic payload for "the code under test did not even allow the monitor to
/// build or read a plain value": a violation, not a harness error.
pub struct Blame(pub String);
pub fn blame(msg: String) -> ! {
    std::panic::panic_any(Blame(msg))
}
pub type Verdict = Result<(), Bad>;
/// What runs and judges one case.
pub type Body<'a> = &'a (dyn Fn(&mut Case) -> Verdict + Sync);

pub fn bad<T>(msg: impl Into<String>) -> Result<T, Bad> {
    Err(Bad { key: "mismatch".into(), msg: msg.into() })
}
pub fn bad_key<T>(key: &str, msg: impl Into<String>) -> Result<T, Bad> {
    Err(Bad { key: key.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return $crate::runner::bad(format!($($t)*)); } };
}

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub verbose: bool,
    pub trace: String,
    pub counts: BTreeMap<&'static str, u64>,
    pub sig: Option<u64>,
    pub sample: Option<String>,
    want_sample: bool,
}
impl Case {
    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_insert(0) += n;
    }
    /// This execution exercised something non-trivial, with this signature.
    pub fn nontrivial(&mut self, sig: &[u8]) {
        self.nontrivial_u64(hash_bytes(7, sig));
    }
    pub fn nontrivial_u64(&mut self, sig: u64) {
        // one signature per case, so that cases are what is counted
        self.sig = Some(self.sig.map_or(sig, |s| s.rotate_left(9).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ sig));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            let _ = writeln!(self.trace, "{}", s);
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}
/// (message, location) of the panic just caught on this thread
pub fn last_panic() -> (String, String) {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()))
}
/// Runs code under test; a panic comes back as Err((message, location)).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        crate::alloc::reset();
        if p.is::<Blame>() {
            std::panic::resume_unwind(p);
        }
        let p = last_panic();
        if harness_location(&p.1) {
            // a bug of the harness itself: never a verdict
            std::panic::panic_any(format!("harness: {} at {}", p.0, p.1));
        }
        p
    })
}
fn harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/harness/src/")
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub counts: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
    /// key -> (count, first few (stream, idx, msg, trace))
    pub violations: BTreeMap<String, (u64, Vec<Example>)>,
    pub inconclusive: Vec<String>,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    /// workload multiplier in percent
    pub scale: u64,
    pub threads: usize,
    pub only: Option<(String, u64)>,
    pub out: String,
    pub report: Mutex<Report>,
    pub serious: AtomicU64,
    pub known: Vec<String>,
    pub deadline: Option<std::time::Instant>,
    /// at most this many cases per stream (interpreters are slow)
    pub max_cases: u64,
    pub guided: Option<crate::guided::Guided>,
    /// the draws to make in the one case of `only`
    pub tape: Option<std::sync::Arc<Vec<u64>>>,
}
/// (stream, idx, message, trace, file with the draws made)
pub type Example = (String, u64, String, String, String);

impl Ctx {
    pub fn n(&self, quick: u64) -> u64 {
        let n = if self.thorough { quick * 25 } else { quick };
        (n * self.scale / 100).max(4).min(self.max_cases)
    }

    /// An exhaustive sweep always runs all its cases (unless scaled down for
    /// an interpreter).
    pub fn sweep(&self, stream: &str, n: u64, f: impl Fn(&mut Case) -> Verdict + Sync) {
        if self.guided.is_some() {
            return;
        }
        let n = if self.scale < 100 { (n * self.scale / 100).max(2).min(n) } else { n };
        let n = n.min(self.max_cases);
        self.run(stream, n, &f)
    }
    pub fn cases(&self, stream: &str, quick: u64, f: impl Fn(&mut Case) -> Verdict + Sync) {
        if let Some(g) = &self.guided {
            g.stream(self, stream, quick, &f);
            return;
        }
        self.run(stream, self.n(quick), &f)
    }

    fn run(&self, stream: &str, n: u64, f: Body) {
        if let Some((s, i)) = &self.only {
            if s == stream {
                self.shard(stream, *i, i + 1, 1, 0, f, None);
            }
            return;
        }
        let threads = if n < 64 { 1 } else { self.threads };
        if threads <= 1 {
            let done = AtomicBool::new(false);
            let cur = AtomicU64::new(0);
            if cfg!(miri) {
                self.shard(stream, 0, n, 1, 0, f, None);
            } else {
                std::thread::scope(|s| {
                    let slot = &cur;
                    let (tid_tx, tid_rx) = std::sync::mpsc::channel();
                    let done = &done;
                    s.spawn(move || self.watch(stream, vec![tid_rx.recv().unwrap()], vec![slot], done));
                    tid_tx.send(gettid()).unwrap();
                    self.shard(stream, 0, n, 1, 0, f, Some(slot));
                    done.store(true, Ordering::SeqCst);
                });
            }
            return;
        }
        let done = AtomicBool::new(false);
        let slots: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
        std::thread::scope(|s| {
            let (tx, rx) = std::sync::mpsc::channel();
            let mut hs = vec![];
            for t in 0..threads {
                let tx = tx.clone();
                let slot = &slots[t];
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            tx.send((t, gettid())).unwrap();
                            self.shard(stream, t as u64, n, threads as u64, t, f, Some(slot));
                        })
                        .unwrap(),
                );
            }
            let mut tids = vec![0; threads];
            for _ in 0..threads {
                let (t, id) = rx.recv().unwrap();
                tids[t] = id;
            }
            let done = &done;
            let slots = slots.iter().collect();
            let w = s.spawn(move || self.watch(stream, tids, slots, done));
            for h in hs {
                if h.join().is_err() {
                    eprintln!("HARNESS-ERROR worker died");
                    std::process::exit(2);
                }
            }
            done.store(true, Ordering::SeqCst);
            let _ = w.join();
        });
    }

    /// A case that burns this much processor time (not wall time) on its
    /// small input is stuck: the largest legitimate case takes milliseconds.
    pub fn watch(&self, stream: &str, tids: Vec<u64>, slots: Vec<&AtomicU64>, done: &AtomicBool) {
        let limit = 40.0;
        let mut start: Vec<(u64, f64)> = tids.iter().map(|t| (0, cpu_s(*t))).collect();
        while !done.load(Ordering::SeqCst) {
            for _ in 0..10 {
                std::thread::sleep(std::time::Duration::from_millis(20));
                if done.load(Ordering::SeqCst) {
                    return;
                }
            }
            for (i, t) in tids.iter().enumerate() {
                let c = slots[i].load(Ordering::SeqCst);
                let cpu = cpu_s(*t);
                if c != start[i].0 {
                    start[i] = (c, cpu);
                } else if c != 0 && c != u64::MAX && cpu - start[i].1 > limit {
                    {
                        let mut r = self.report.lock().unwrap();
                        let e = r.violations.entry("hang".into()).or_default();
                        e.0 += 1;
                        e.1.push((
                            stream.to_string(),
                            c - 1,
                            format!("no progress: one case used more than {limit} s of processor time"),
                            String::new(),
                            String::new(),
                        ));
                    }
                    self.finish();
                    std::process::exit(1);
                }
            }
        }
    }

    fn shard(&self, stream: &str, from: u64, n: u64, step: u64, t: usize, f: Body, slot: Option<&AtomicU64>) {
        let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut sigs = HashSet::new();
        let mut samples = vec![];
        let mut evals = 0u64;
        let journal = self.journal(t);
        let mut i = from;
        while i < n {
            if self.serious.load(Ordering::Relaxed) > 20 {
                break;
            }
            if evals % 64 == 0 || cfg!(miri) {
                if let Some(d) = self.deadline {
                    if std::time::Instant::now() > d {
                        *counts.entry("cases_not_run_time_cap").or_insert(0) += (n - i) / step;
                        break;
                    }
                }
            }
            if let Some(s) = slot {
                s.store(i + 1, Ordering::SeqCst);
            }
            journal_write(&journal, stream, i);
            let (mut case, v) = self.one(stream, i, false, f, samples.is_empty() && i > n / 2);
            evals += 1;
            for (k, c) in &case.counts {
                *counts.entry(k).or_insert(0) += c;
            }
            if sigs.len() < 4_000_000 {
                sigs.extend(case.sig.take());
            }
            if let Some(s) = case.sample.take() {
                samples.push(s);
            }
            if let Err(b) = v {
                self.record(b, |b| {
                    let (case, v) = self.one(stream, i, true, f, false);
                    let msg = b.msg + again(v, &b.key);
                    (stream.to_string(), i, msg, case.trace, String::new())
                });
            }
            i += step;
        }
        if let Some(s) = slot {
            s.store(u64::MAX, Ordering::SeqCst);
        }
        journal_write(&journal, "-", 0);
        let mut r = self.report.lock().unwrap();
        r.evaluations += evals;
        *r.counts.entry(format!("cases[{stream}]")).or_insert(0) += evals;
        for (k, c) in counts {
            *r.counts.entry(k.to_string()).or_insert(0) += c;
        }
        r.sigs.extend(sigs);
        if r.samples.len() < 12 {
            if let Some(s) = samples.into_iter().next() {
                if r.samples.iter().filter(|x| x.starts_with(&format!("[{stream}]"))).count() < 2 {
                    r.samples.push(format!("[{stream}] {s}"));
                }
            }
        }
    }

    fn one(&self, stream: &str, i: u64, verbose: bool, f: Body, want_sample: bool) -> (Case, Verdict) {
        let mut rng = Rng::new(self.seed, &self.prop, stream, i);
        if let Some(t) = &self.tape {
            rng = rng.on_tape(t.clone(), vec![]);
        }
        self.one_with(stream, i, rng, verbose, f, want_sample)
    }
    pub fn one_with(&self, stream: &str, i: u64, rng: Rng, verbose: bool, f: Body, want_sample: bool) -> (Case, Verdict) {
        let mut case = Case {
            rng,
            idx: i,
            verbose: verbose || self.only.is_some(),
            trace: String::new(),
            counts: BTreeMap::new(),
            sig: None,
            sample: None,
            want_sample,
        };
        let v = match catch_unwind(AssertUnwindSafe(|| f(&mut case))) {
            Ok(v) => v,
            Err(p) => {
                crate::alloc::reset();
                if let Some(b) = p.downcast_ref::<Blame>() {
                    let _ = last_panic();
                    return (case, Err(Bad { key: "unusable".into(), msg: b.0.clone() }));
                }
                let (msg, loc) = last_panic();
                let inner = p.downcast_ref::<String>().map_or(false, |s| s.starts_with("harness: "));
                if inner || harness_location(&loc) {
                    eprintln!("HARNESS-ERROR {}/{stream}/{i}: panic in the harness: {msg} at {loc}", self.prop);
                    std::process::exit(2);
                }
                Err(Bad { key: "panic".into(), msg: format!("the code under test panicked: {msg} (at {loc})") })
            }
        };
        (case, v)
    }

    /// `example` is made of the first few of each kind only.
    pub fn record(&self, b: Bad, example: impl FnOnce(Bad) -> Example) {
        let known = self.known.iter().any(|k| *k == b.key);
        if !known {
            self.serious.fetch_add(1, Ordering::Relaxed);
        }
        let key = b.key.clone();
        {
            let mut r = self.report.lock().unwrap();
            let e = r.violations.entry(key.clone()).or_default();
            e.0 += 1;
            if e.1.len() >= 3 {
                return;
            }
        }
        let ex = example(b);
        let mut r = self.report.lock().unwrap();
        r.violations.entry(key).or_default().1.push(ex);
    }

    fn journal(&self, t: usize) -> Option<std::fs::File> {
        if cfg!(miri) || self.out.is_empty() {
            return None;
        }
        std::fs::File::create(format!("{}.journal.{t}", self.out)).ok()
    }

    pub fn inconclusive(&self, why: String) {
        self.report.lock().unwrap().inconclusive.push(why);
    }
    /// Fails the run as inconclusive when it did not see what it should have.
    pub fn require(&self, what: &str, min: u64) {
        if self.only.is_some() || self.guided.is_some() {
            return;
        }
        let r = self.report.lock().unwrap();
        let have = r.counts.get(what).copied().unwrap_or(0);
        let none_bad = r.violations.is_empty();
        drop(r);
        if have < min && none_bad {
            self.inconclusive(format!("observed only {have} of at least {min} '{what}'"));
        }
    }

    pub fn finish(&self) {
        let r = self.report.lock().unwrap();
        let mut s = String::from("{\n");
        let _ = write!(s, " \"prop\": {}, \"seed\": {}, \"evaluations\": {}, \"distinct\": {},\n", js(&self.prop), self.seed, r.evaluations, r.sigs.len());
        let list: Vec<String> = r.counts.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        let _ = write!(s, " \"counts\": {{{}}},\n", list.join(", "));
        let list: Vec<String> = r.samples.iter().map(|x| js(x)).collect();
        let _ = write!(s, " \"samples\": [{}],\n", list.join(", "));
        let list: Vec<String> = r.inconclusive.iter().map(|x| js(x)).collect();
        let _ = write!(s, " \"inconclusive\": [{}],\n", list.join(", "));
        let list: Vec<String> = r
            .violations
            .iter()
            .map(|(k, (n, ex))| {
                let exs: Vec<String> = ex
                    .iter()
                    .map(|(st, i, m, tr, ta)| format!("{{\"stream\": {}, \"idx\": {}, \"msg\": {}, \"trace\": {}, \"tape\": {}}}", js(st), i, js(m), js(tr), js(ta)))
                    .collect();
                format!("{{\"key\": {}, \"count\": {}, \"examples\": [{}]}}", js(k), n, exs.join(", "))
            })
            .collect();
        let _ = write!(s, " \"violations\": [{}]\n}}\n", list.join(",\n  "));
        if let Some(g) = &self.guided {
            let _ = std::fs::write(format!("{}.edges", self.out), g.edges());
        }
        if self.out.is_empty() {
            println!("REPORT {}", s.replace('\n', " "));
        } else {
            std::fs::write(&self.out, s).unwrap();
        }
    }
}

pub fn again(v: Verdict, key: &str) -> &'static str {
    match v {
        Err(b) if b.key == key => "",
        _ => "\n(not reproduced when the case was run again with tracing: the outcome is not a function of the input alone)",
    }
}

fn journal_write(j: &Option<std::fs::File>, stream: &str, i: u64) {
    #[cfg(unix)]
    if let Some(f) = j {
        use std::os::unix::fs::FileExt;
        let s = format!("{:<60} {:>20}\n", stream, i);
        let _ = f.write_all_at(s.as_bytes(), 0);
    }
}

pub fn js(x: &str) -> String {
    let mut s = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            '\t' => s.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(s, "\\u{:04x}", c as u32);
            }
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

pub fn gettid() -> u64 {
    if cfg!(miri) {
        return 0;
    }
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().and_then(|x| x.to_str().map(|x| x.to_string()))).and_then(|x| x.parse().ok()).unwrap_or(0)
}
fn cpu_s(tid: u64) -> f64 {
    let t = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    let rest = t.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b.iter().take(4096) {
        let _ = write!(s, "{:02x}", x);
    }
    if b.len() > 4096 {
        let _ = write!(s, "...({} bytes)", b.len());
    }
    s
}
