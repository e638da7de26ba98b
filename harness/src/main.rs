mod alloc;
mod behav;
mod cov;
mod effort;
mod faults;
mod guided;
mod iso;
mod mem;
mod order;
mod peer;
mod real;
mod recv;
mod rng;
mod runner;
mod spec;
mod values;
mod wire;
use runner::Ctx;
use std::sync::atomic::AtomicU64;
use std::sync::Mutex;

/// Formats every record into nothing, so that what the code under test does
/// for its log messages happens, as it does for users who have a logger.
struct NullLog;
struct Nothing;
impl std::fmt::Write for Nothing {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        std::hint::black_box(s.len());
        Ok(())
    }
}
impl log::Log for NullLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = std::fmt::Write::write_fmt(&mut Nothing, *r.args());
    }
    fn flush(&self) {}
}

fn main() {
    if std::env::var_os("MONITOR_LOG").is_some() {
        let _ = log::set_logger(&NullLog);
        log::set_max_level(log::LevelFilter::Trace);
    }
    let mut a = std::env::args().skip(1);
    let prop = a.next().unwrap_or_default();
    let mut x = Ctx {
        prop: prop.clone(),
        seed: 1,
        thorough: false,
        scale: 100,
        threads: std::thread::available_parallelism().map_or(4, |n| n.get()),
        only: None,
        out: String::new(),
        report: Mutex::new(Default::default()),
        serious: AtomicU64::new(0),
        known: vec![],
        deadline: None,
        max_cases: u64::MAX,
        guided: None,
        tape: None,
    };
    if prop == "edges" {
        print!("{}", cov::pcs());
        return;
    }
    let mut solo = String::new();
    while let Some(k) = a.next() {
        let v = a.next().unwrap_or_default();
        match k.as_str() {
            "--seed" => x.seed = v.parse().unwrap_or(1),
            "--tier" => x.thorough = v == "thorough",
            "--out" => x.out = v,
            "--known" => x.known = v.split(',').map(|s| s.to_string()).collect(),
            "--scale" => x.scale = v.parse().unwrap_or(100),
            "--max-cases" => x.max_cases = v.parse().unwrap_or(u64::MAX),
            "--threads" => x.threads = v.parse().unwrap_or(1),
            "--cap" => x.deadline = v.parse().ok().map(|s: u64| std::time::Instant::now() + std::time::Duration::from_secs(s)),
            "--guided" => {
                let (secs, map) = v.split_once(',').expect("seconds,file");
                let map = cov::Map::new(&std::fs::read_to_string(map).expect("map"));
                x.guided = Some(guided::Guided::new(secs.parse().expect("seconds"), map));
            }
            "--tape" => x.tape = Some(std::sync::Arc::new(guided::from_text(&std::fs::read_to_string(&v).expect("tape")))),
            "--only" if prop == "solo" => solo = v,
            "--only" => {
                let (s, i) = v.split_once(':').expect("stream:idx");
                x.only = Some((s.to_string(), i.parse().expect("index")));
            }
            _ => {
                eprintln!("HARNESS-ERROR unknown option {k}");
                std::process::exit(2);
            }
        }
    }
    runner::install_panic_hook();
    match prop.as_str() {
        "canary" => {
            canary(&x.out);
            return;
        }
        "solo" => {
            iso::solo(x.seed, &solo, x.scale < 100);
            return;
        }
        _ => {
            run(&prop, &x);
            if let Some(g) = &x.guided {
                g.listing.store(false, std::sync::atomic::Ordering::SeqCst);
                run(&prop, &x);
            }
        }
    }
    let bad = {
        let r = x.report.lock().unwrap();
        r.violations.keys().any(|k| !x.known.contains(k))
    };
    x.finish();
    std::process::exit(if bad { 1 } else { 0 });
}

fn run(prop: &str, x: &Ctx) {
    match prop {
        "C01" => recv::c01(x),
        "C02" => recv::c02(x),
        "C03" => recv::c03(x),
        "C04" => recv::c04(x),
        "C05" => recv::c05(x),
        "C06" => recv::c06(x),
        "C07" => recv::c07(x),
        "C10" => wire::c10(x),
        "C11" => wire::c11(x),
        "C12" => values::c12(x),
        "C13" => values::c13(x),
        "C14" => values::c14(x),
        "C15" => values::c15(x),
        "C16" => values::c16(x),
        "C17" => values::c17(x),
        "C18" => behav::c18(x),
        "C19" => behav::c19(x),
        "C20" => behav::c20(x),
        "C21" => behav::c21(x),
        "C25" => behav::c25(x),
        "C24" => recv::c24(x),
        "C26" => order::c26(x),
        "C27" => faults::c27(x),
        "C28" => faults::c28(x),
        "C29" => effort::c29(x),
        "C08" => mem::c08(x),
        "C09" => mem::c09(x),
        "C23" => peer::c23(x),
        "C22" => iso::c22(x),
        _ => {
            eprintln!("HARNESS-ERROR unknown property {prop}");
            std::process::exit(2);
        }
    }
}

/// A deliberate error of the harness's own, which the sanitizer this was
/// built with has to report: shows that it is really watching.
fn canary(kind: &str) {
    use std::hint::black_box;
    use std::sync::atomic::{AtomicUsize, Ordering};
    match kind {
        "asan" | "miri" => {
            let v = black_box(vec![1u8; 32]);
            let p = black_box(v.as_ptr());
            drop(v);
            println!("{}", unsafe { *black_box(p) });
        }
        "msan" => {
            let mut v: Vec<u8> = black_box(Vec::with_capacity(32));
            #[allow(clippy::uninit_vec)]
            unsafe {
                v.set_len(32)
            };
            if black_box(&v)[7] == 3 {
                println!("three");
            }
        }
        "tsan" | "miri-threads" => {
            struct P(*mut u64);
            unsafe impl Send for P {}
            let mut n = 0u64;
            let p: *mut u64 = &mut n;
            let (a, b) = (P(p), P(p));
            // both are alive all the time, and nothing orders them
            let (here, done) = (AtomicUsize::new(0), AtomicUsize::new(0));
            fn meet(n: &AtomicUsize) {
                n.fetch_add(1, Ordering::Relaxed);
                while n.load(Ordering::Relaxed) < 2 {
                    std::thread::yield_now();
                }
            }
            std::thread::scope(|s| {
                for p in [a, b] {
                    let (here, done) = (&here, &done);
                    s.spawn(move || {
                        let p = p;
                        meet(here);
                        for _ in 0..1000 {
                            unsafe { *p.0 += 1 };
                        }
                        meet(done);
                    });
                }
            });
            println!("{}", black_box(n));
        }
        _ => {}
    }
}
