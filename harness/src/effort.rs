//! C29: how much work operations do, measured (not timed) in the "eff" build,
//! in which the compiler counts every branch taken in this crate, the code
//! under test and the crates it uses, and copying is counted by the byte. The
//! other builds count what is allocated.
use crate::alloc;
use crate::behav::*;
use crate::ensure;
use crate::real::*;
use crate::recv::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use crate::wire::Wire;
use bytes::BytesMut;
use rtps_rs::verif_hooks as v;
use speedy::Writable;
use std::hint::black_box;
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use tokio_util::codec::Decoder;

#[cfg(monitor_effort)]
std::arch::global_asm!(
    ".section .tbss.effort,\"awT\",@nobits",
    ".p2align 3",
    "effort_edges: .zero 8",
    "effort_bytes: .zero 8",
    ".text",
    ".globl __sanitizer_cov_trace_pc_guard",
    "__sanitizer_cov_trace_pc_guard: incq %fs:effort_edges@tpoff",
    "ret",
    ".globl __sanitizer_cov_trace_pc_guard_init",
    "__sanitizer_cov_trace_pc_guard_init: ret",
    ".globl effort_spent_edges",
    "effort_spent_edges: movq %fs:effort_edges@tpoff, %rax",
    "ret",
    ".globl effort_spent_bytes",
    "effort_spent_bytes: movq %fs:effort_bytes@tpoff, %rax",
    "ret",
    // the C library's, which everything in this program would use
    ".globl memcpy",
    "memcpy: movq %rdi, %rax",
    "movq %rdx, %rcx",
    "addq %rdx, %fs:effort_bytes@tpoff",
    "rep movsb",
    "ret",
    ".globl memmove",
    "memmove: movq %rdi, %rax",
    "movq %rdx, %rcx",
    "addq %rdx, %fs:effort_bytes@tpoff",
    "movq %rdi, %r8",
    "subq %rsi, %r8",
    "cmpq %rdx, %r8",
    "jb 1f",
    "rep movsb",
    "ret",
    "1: leaq -1(%rdi,%rdx), %rdi",
    "leaq -1(%rsi,%rdx), %rsi",
    "std",
    "rep movsb",
    "cld",
    "ret",
    options(att_syntax)
);
#[cfg(monitor_effort)]
extern "C" {
    fn effort_spent_edges() -> u64;
    fn effort_spent_bytes() -> u64;
}
#[cfg(monitor_effort)]
fn spent() -> (u64, u64) {
    unsafe { (effort_spent_edges(), effort_spent_bytes()) }
}
#[cfg(not(monitor_effort))]
fn spent() -> (u64, u64) {
    (0, 0)
}

#[derive(Clone, Copy, Debug)]
pub struct Cost {
    /// branches taken
    edges: u64,
    /// bytes copied and bytes asked of the allocator
    bytes: u64,
}
/// What `f` does; None if it panics, which other properties judge.
fn cost<R>(f: impl FnOnce() -> R) -> (Option<R>, Cost) {
    let a = spent();
    let (r, st) = alloc::measure(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
    let b = spent();
    (r.ok(), Cost { edges: b.0 - a.0, bytes: b.1 - a.1 + st.total })
}

/// Allowed: a constant, and so much for each byte (element) of the input.
struct Allowed {
    edges: (u64, u64),
    bytes: (u64, u64),
}
const DECODE: Allowed = Allowed { edges: (10_000, 400), bytes: (10_000, 250) };
/// and this much, once for a stream, in calls that find nothing complete
const SPARE: u64 = 1 << 20;
const WIRE: Allowed = Allowed { edges: (6_000, 250), bytes: (4_000, 50) };
const CONSTANT: Allowed = Allowed { edges: (1_000, 0), bytes: (4_000, 0) };
const STEP: Allowed = Allowed { edges: (20_000, 0), bytes: (20_000, 0) };
const ELEMENTS: Allowed = Allowed { edges: (4_000, 400), bytes: (20_000, 600) };

static WORST: std::sync::Mutex<std::collections::BTreeMap<&'static str, (u64, u64, f64, f64)>> = std::sync::Mutex::new(std::collections::BTreeMap::new());

fn within(c: &mut Case, what: &'static str, k: Cost, n: usize, a: &Allowed, about: impl FnOnce() -> String) -> Verdict {
    let n = n as u64;
    ensure!(k.edges <= a.edges.0 + a.edges.1 * n, "{what} took {} steps for an input of {n}: {}", k.edges, about());
    ensure!(k.bytes <= a.bytes.0 + a.bytes.1 * n, "{what} copied and allocated {} bytes for an input of {n}: {}", k.bytes, about());
    c.count("operations_measured", 1);
    c.count("steps_seen", k.edges);
    static SHOW: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    if *SHOW.get_or_init(|| std::env::var_os("EFFORT_SHOW").is_some()) {
        let mut w = WORST.lock().unwrap();
        let e = w.entry(what).or_insert((0, 0, 0.0, 0.0));
        if n < 40 {
            e.0 = e.0.max(k.edges);
            e.1 = e.1.max(k.bytes);
        } else {
            e.2 = e.2.max(k.edges as f64 / n as f64);
            e.3 = e.3.max(k.bytes as f64 / n as f64);
        }
    }
    Ok(())
}
fn brief(b: &[u8]) -> String {
    format!("{} bytes {}", b.len(), hex(&b[..b.len().min(120)]))
}

// ------------------------------------------------------------- decoding

/// One call of decode; false when there is nothing more to do with this buffer.
fn call(c: &mut Case, rx: &mut v::MessageReceiver, buf: &mut BytesMut, spare: &mut u64, about: &str) -> Result<Option<bool>, Bad> {
    let before = buf.len();
    let (r, mut k) = cost(|| match rx.decode(buf) {
        Ok(None) => 0,
        Ok(Some(i)) => {
            black_box(&i);
            1
        }
        Err(_) => 2,
    });
    let r = match r {
        Some(r) => r,
        None => {
            c.count("panics_left_to_other_properties", 1);
            return Ok(None);
        }
    };
    let used = before - buf.len();
    if r == 0 {
        // making room for what is still to come is fine, once
        let more = k.bytes.saturating_sub(DECODE.bytes.0).min(*spare);
        *spare -= more;
        k.bytes -= more;
    }
    within(c, if r == 0 { "a call of decode that found nothing complete" } else { "a call of decode" }, k, used, &DECODE, || format!("{before} bytes were in the buffer, {used} were used; {about}"))?;
    c.count(if r == 0 { "waiting_calls" } else { "handling_calls" }, 1);
    Ok(Some(r != 0 && (r == 1 || used > 0)))
}
fn drain(c: &mut Case, rx: &mut v::MessageReceiver, buf: &mut BytesMut, spare: &mut u64, about: &str) -> Result<bool, Bad> {
    for _ in 0..buf.len() + 4 {
        match call(c, rx, buf, spare, about)? {
            None => return Ok(false),
            Some(true) => {}
            Some(false) => break,
        }
    }
    Ok(true)
}
/// A submessage with as much in it as its length field can say.
fn big_sub(r: &mut Rng, most: usize) -> Vec<u8> {
    let flags = gen_flags(r);
    let le = flags & 1 == 1;
    let n = *r.pick(&[300usize, 3_000, 20_000, 65_000, 65_535]).min(&most);
    let kind = *r.pick(&[0x01u8, 0x06, 0x07, 0x08, 0x09, 0x0c, 0x0d, 0x0e, 0x0f, 0x0f, 0x12, 0x13, 0x80, 0x22]);
    let mut body = if kind == 0x0f {
        let mut e = Enc::new(le);
        let most = (n.saturating_sub(8)) / 24;
        let a = if flags & 2 == 2 { r.range(0, most) } else { most };
        let l = gen_loc(r);
        e.locs(&vec![l.clone(); a]);
        if flags & 2 == 2 {
            e.locs(&vec![l; most - a]);
        }
        e.b
    } else if known_kind(kind) {
        gen_sub_flags(r, kind, flags, &OPTS).body
    } else {
        vec![]
    };
    if body.len() < n {
        let more = n - body.len();
        let junk = gen_junk(r, more.min(2_000), le);
        body.extend(junk.iter().cycle().take(more).copied().collect::<Vec<_>>());
    }
    body.truncate(65_535);
    frame(kind, flags, body.len() as u16, &body)
}
fn big_pieces(c: &mut Case) -> Verdict {
    let kind = gen_kind(&mut c.rng);
    let mut rx = v::MessageReceiver::new(mk_kind(kind));
    let r = &mut c.rng;
    let mut b = header_bytes((2, 1), r.arr(), r.arr());
    let step = *r.pick(&[1usize, 1, 3, 100, 1460, 70_000]);
    let most = if step < 4 && !r.chance(1, 8) { 20_000 } else { 65_535 };
    for _ in 0..r.range(1, 3) {
        b.extend(big_sub(r, most));
    }
    // small ones after them
    for _ in 0..r.usize(12) {
        let k = *r.pick(&[0x01u8, 0x06, 0x07, 0x08, 0x09, 0x0c, 0x0e, 0x12, 0x13, 0x80]);
        b.extend(gen_sub_kind(r, k, &OPTS).bytes());
    }
    if r.chance(1, 4) {
        mutate(r, &mut b);
    }
    let about = brief(&b);
    c.note(|| format!("{about} fed {step} bytes at a time"));
    let mut buf = BytesMut::new();
    let mut spare = SPARE;
    for p in b.chunks(step) {
        buf.extend_from_slice(p);
        if !drain(c, &mut rx, &mut buf, &mut spare, &about)? {
            return Ok(());
        }
    }
    let left = buf.len();
    let (_, k) = cost(|| rx.decode_eof(&mut buf).is_ok());
    within(c, "decode_eof", k, left, &DECODE, || about.clone())?;
    c.nontrivial(&b);
    c.sample(|| format!("{about} fed {step} bytes at a time"));
    Ok(())
}
fn full_buffer(c: &mut Case) -> Verdict {
    let kind = gen_kind(&mut c.rng);
    let mut rx = v::MessageReceiver::new(mk_kind(kind));
    let r = &mut c.rng;
    let mut b = vec![];
    let one = gen_session(r, &OPTS).iter().map(|m| m.bytes()).collect::<Vec<_>>().concat();
    let goal = *r.pick(&[20_000usize, 100_000, 400_000]);
    while b.len() < goal && !one.is_empty() {
        b.extend(&one);
    }
    if r.chance(1, 4) {
        mutate(r, &mut b);
    }
    let about = brief(&b);
    let mut buf = BytesMut::from(&b[..]);
    drain(c, &mut rx, &mut buf, &mut { SPARE }, &about)?;
    c.count("bytes_in_full_buffers", b.len() as u64);
    c.nontrivial(&b);
    Ok(())
}
fn long_session(c: &mut Case) -> Verdict {
    let kind = gen_kind(&mut c.rng);
    let mut rx = v::MessageReceiver::new(mk_kind(kind));
    let one_message = c.rng.bool();
    let n = if one_message { 0 } else { c.rng.usize(3) };
    let kinds: Vec<u8> = (0..6).map(|_| *c.rng.pick(&[0x0f, 0x0d, 0x0c, 0x07, 0x06, 0x09, 0x0e, 0x80, 0x01, 0x08, 0x12, 0x13])).collect();
    let mut sig = 0u64;
    let mut spare = SPARE;
    let mut buf = BytesMut::new();
    let rounds = c.rng.range(2_000, 12_000);
    for i in 0..rounds {
        if i == 0 || !one_message {
            let m = gen_message(&mut c.rng, &OPTS, n, true);
            buf.extend_from_slice(&header_bytes(m.version, m.vendor, m.prefix));
            for s in &m.subs {
                if !s.last {
                    buf.extend_from_slice(&s.bytes());
                }
            }
            if !one_message && i % 3 == 0 {
                let k = *c.rng.pick(&kinds);
                buf.extend_from_slice(&gen_sub_kind(&mut c.rng, k, &OPTS).bytes());
            }
        } else {
            let k = *c.rng.pick(&kinds);
            buf.extend_from_slice(&gen_sub_kind(&mut c.rng, k, &OPTS).bytes());
        }
        sig = sig.wrapping_mul(31).wrapping_add(buf.len() as u64);
        let about = format!("round {i} of a long session");
        if !drain(c, &mut rx, &mut buf, &mut spare, &about)? {
            return Ok(());
        }
        buf.clear();
    }
    c.count("rounds_of_long_sessions", rounds as u64);
    c.nontrivial_u64(sig);
    Ok(())
}
/// Thousands of messages that have nothing in common.
fn all_different(c: &mut Case) -> Verdict {
    let kind = gen_kind(&mut c.rng);
    let mut rx = v::MessageReceiver::new(mk_kind(kind));
    let rounds = *c.rng.pick(&[3_000u32, 12_000, 30_000]);
    let (salt, le): ([u8; 8], bool) = (c.rng.arr(), c.rng.bool());
    let flags = le as u8;
    let kinds: Vec<u8> = (0..c.rng.range(1, 10)).map(|_| *c.rng.pick(&[0x0fu8, 0x0d, 0x0c, 0x09, 0x0e, 0x06, 0x07, 0x08, 0x12, 0x13, 0x80, 0x01])).collect();
    let one_message = c.rng.chance(1, 3);
    let (mut buf, mut spare) = (BytesMut::new(), SPARE);
    for i in 0..rounds {
        let id = |k: u32| {
            let mut p = [0u8; 12];
            p[..4].copy_from_slice(&(i.wrapping_mul(16) + k).to_le_bytes());
            p[4..].copy_from_slice(&salt);
            p
        };
        let four = |k: u32| (i.wrapping_mul(16) + k).to_le_bytes();
        if i == 0 || !one_message {
            buf.extend_from_slice(&header_bytes((2, i as u8), [four(1)[0], four(1)[1]], id(0)));
        }
        let n = i64::from(i) * 1000 + 1;
        for k in &kinds {
            let mut e = Enc::new(le);
            match k {
                0x0f => e.locs(&[Loc { kind: 1, port: i, addr: [i as u8; 16], wild_port: false }]),
                0x0d => e.raw(&four(2)).u32(i % 65_536),
                0x0c => e.raw(&[2, i as u8]).raw(&four(3)[..2]).raw(&id(4)).raw(&[0; 4]),
                0x09 => e.i32(i as i32).u32(i.wrapping_mul(77_777)),
                0x0e => e.raw(&id(5)),
                0x06 => e.raw(&four(6)).raw(&four(7)).sn(n).bits(32, &[i]).i32(i as i32),
                0x07 => e.raw(&four(8)).raw(&four(9)).sn(n).sn(n + 7).i32(i as i32),
                0x08 => e.raw(&four(8)).raw(&four(9)).sn(n).sn(n + 7).bits(32, &[i]),
                0x12 => e.raw(&four(8)).raw(&four(9)).sn(n).u32(i).bits(32, &[i]).i32(i as i32),
                0x13 => e.raw(&four(8)).raw(&four(9)).sn(n).u32(i).i32(i as i32),
                _ => e.u32(i),
            };
            let k = if *k == 0x80 { 0x80 | (i as u8 & 0x7f) } else { *k };
            buf.extend_from_slice(&frame(k, flags, e.b.len() as u16, &e.b));
        }
        if !one_message {
            // the last one of its message
            buf.extend_from_slice(&[0x80, 0, 0, 0]);
        }
        if !drain(c, &mut rx, &mut buf, &mut spare, &format!("message {i} of those that have nothing in common, kinds {kinds:x?}"))? {
            return Ok(());
        }
        ensure!(buf.is_empty(), "{} bytes are left of message {i} of those that have nothing in common, kinds {kinds:x?}", buf.len());
    }
    c.count("messages_with_nothing_in_common", rounds as u64);
    c.nontrivial(format!("{rounds} {salt:?} {kinds:?}").as_bytes());
    Ok(())
}
fn hostile(c: &mut Case) -> Verdict {
    let kind = gen_kind(&mut c.rng);
    let mut rx = v::MessageReceiver::new(mk_kind(kind));
    let r = &mut c.rng;
    let mut b: Vec<u8> = header_bytes((2, 1), r.arr(), r.arr());
    for _ in 0..r.range(1, 8) {
        let flags = gen_flags(r);
        let k = *r.pick(&[0x06u8, 0x08, 0x12, 0x0f, 0x0f, 0x07, 0x0d]);
        let body = crate::mem::hostile_body(r, k, flags & 1 == 1);
        b.extend(frame(k, flags, body.len() as u16, &body));
    }
    if r.bool() {
        mutate(r, &mut b);
    }
    let about = brief(&b);
    let mut buf = BytesMut::new();
    let mut spare = SPARE;
    for n in gen_chunks(&mut c.rng, b.len()) {
        let fed = b[..n].to_vec();
        b.drain(..n);
        buf.extend_from_slice(&fed);
        if !drain(c, &mut rx, &mut buf, &mut spare, &about)? {
            return Ok(());
        }
    }
    c.nontrivial(about.as_bytes());
    Ok(())
}

// ---------------------------------------------------------------- values

fn wire<T: Wire>(c: &mut Case) -> Verdict {
    let le = c.rng.bool();
    let e = end(le);
    let (lay, _) = T::make(&mut c.rng);
    let mut enc = Enc::new(le);
    lay(&mut enc);
    let mut b = enc.b;
    let damage = c.rng.below(4);
    match damage {
        0 => mutate(&mut c.rng, &mut b),
        1 => {
            // claims somewhere
            let r = &mut c.rng;
            let claim = *r.pick(&[u32::MAX, 0x8000_0000, 0x7fff_ffff, 0x1000_0000, 1_000_000, 70_000, 300]);
            let at = r.usize(b.len().max(4) / 4) * 4;
            if at + 4 <= b.len() {
                b[at..at + 4].copy_from_slice(&if le { claim.to_le_bytes() } else { claim.to_be_bytes() });
            }
        }
        _ => {}
    }
    c.note(|| format!("{} {} (little endian: {le})", T::NAME, brief(&b)));
    let about = || format!("{} {} (little endian: {le})", T::NAME, brief(&b));
    let (x, k) = cost(|| T::read_from_buffer_with_ctx(e, &b));
    within(c, "reading a value", k, b.len(), &WIRE, about)?;
    if let Some(Ok(x)) = x {
        let (w, k) = cost(|| x.write_to_vec_with_ctx(e));
        let n = w.as_ref().and_then(|w| w.as_ref().ok()).map_or(0, |w| w.len());
        within(c, "writing a value", k, n, &WIRE, about)?;
        let (_, k) = cost(|| black_box(&x) == black_box(&x));
        within(c, "comparing a value", k, n, &WIRE, about)?;
        if damage > 1 || T::NAME != "LocatorList_t" {
            // a stream does not say how much there is, so what a damaged list claims has to be believed
            let (y, k) = cost(|| T::read_from_stream_unbuffered_with_ctx(e, &b[..]).is_ok());
            within(c, "reading a value from a stream", k, b.len(), &WIRE, about)?;
            black_box(y);
        }
        let (_, k) = cost(|| drop(x));
        within(c, "dropping a value", k, n, &WIRE, about)?;
        c.count("values", 1);
    }
    c.nontrivial(&[T::NAME.as_bytes(), &b].concat());
    Ok(())
}
fn sets(c: &mut Case) -> Verdict {
    let base = match c.rng.below(3) {
        0 => c.rng.i64v(),
        1 => *c.rng.pick(&[i64::MAX, i64::MAX - 255, i64::MAX - 300, i64::MIN, 0, 1]),
        _ => c.rng.below(1000) as i64,
    };
    let fbase = match c.rng.below(3) {
        0 => c.rng.u32v(),
        _ => *c.rng.pick(&[u32::MAX, u32::MAX - 255, 0, 1, 77]),
    };
    let mut s = v::SequenceNumberSet_t::new(mk_sn(base));
    let mut f = v::FragmentNumberSet_t::new(v::FragmentNumber_t::from(fbase));
    let n = if c.rng.chance(1, 20) { 3_000 } else { c.rng.usize(60) };
    for i in 0..n {
        let (x, y) = match c.rng.below(4) {
            0 => (c.rng.i64v(), c.rng.u32v()),
            1 => (base.saturating_add(c.rng.below(1 << 40) as i64), fbase.saturating_add(c.rng.below(1 << 30) as u32)),
            _ => {
                let d = c.rng.below(256);
                (base.saturating_add(d as i64), fbase.saturating_add(d as u32))
            }
        };
        let (_, k) = cost(|| s.insert(mk_sn(x)));
        within(c, "inserting into a set", k, 0, &STEP, || format!("{x} into a set from {base}, insertion {i}"))?;
        let (_, k) = cost(|| f.insert(v::FragmentNumber_t::from(y)));
        within(c, "inserting into a set", k, 0, &STEP, || format!("{y} into a set of fragments from {fbase}, insertion {i}"))?;
    }
    if c.rng.bool() {
        // sets as received
        let (g, h) = (gen_set(&mut c.rng, i64::MIN as i128, i64::MAX as i128), gen_set(&mut c.rng, 0, u32::MAX as i128));
        let le = c.rng.bool();
        let mut e = Enc::new(le);
        e.sn(g.base as i64).bits(g.nbits, &g.words);
        let mut d = Enc::new(le);
        d.u32(h.base as u32).bits(h.nbits, &h.words);
        if let (Some(x), Some(y)) = (try_read(le, &e.b), try_read(le, &d.b)) {
            (s, f) = (x, y);
        }
    }
    // every step of the iteration counts on its own
    let mut members = 0;
    let (it, k) = cost(|| s.into_iter());
    within(c, "starting to iterate a set", k, 0, &STEP, || format!("from {base}"))?;
    if let Some(mut it) = it {
        loop {
            let (x, k) = cost(|| it.next());
            within(c, "a step of iterating a set", k, 0, &STEP, || format!("from {base}, after {members} members"))?;
            match x {
                Some(Some(_)) if members < 1000 => members += 1,
                _ => break,
            }
        }
    }
    let (it, k) = cost(|| f.into_iter().take(1000).count());
    within(c, "iterating a set", k, 256, &ELEMENTS, || format!("of fragments from {fbase}"))?;
    c.count("members_iterated", members + it.unwrap_or(0) as u64);
    c.nontrivial(format!("{base} {fbase} {n} {members}").as_bytes());
    Ok(())
}
fn try_read<T: for<'a> speedy::Readable<'a, speedy::Endianness>>(le: bool, b: &[u8]) -> Option<T> {
    T::read_from_buffer_with_ctx(end(le), b).ok()
}
fn conversions(c: &mut Case) -> Verdict {
    use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub};
    let r = &mut c.rng;
    let t: v::Time_t = read(false, &[r.i32v().to_be_bytes(), r.u32v().to_be_bytes()].concat());
    let d: v::Duration_t = read(false, &[r.i32v().to_be_bytes(), r.u32v().to_be_bytes()].concat());
    let (secs, nanos) = (r.u64v(), r.below(1_000_000_000) as u32);
    let sd = Duration::new(secs, nanos);
    let st = if r.bool() { UNIX_EPOCH.checked_add(sd) } else { UNIX_EPOCH.checked_sub(sd) }.unwrap_or(UNIX_EPOCH);
    let (a, b) = (mk_sn(r.i64v()), mk_sn(r.i64v()));
    let (p, q) = (v::FragmentNumber_t::from(r.u32v()), v::FragmentNumber_t::from(r.u32v()));
    let l = gen_loc(r);
    let addr = if r.bool() { std::net::SocketAddr::new(std::net::IpAddr::from(r.arr::<16>()), r.u16v()) } else { std::net::SocketAddr::new(std::net::IpAddr::from(r.arr::<4>()), r.u16v()) };
    let about = format!("{t:?} {d:?} {sd:?} {st:?} {a:?} {b:?} {p:?} {q:?} {l:?} {addr:?}");
    let d2: v::Duration_t = read(false, &write(false, &d));
    c.note(|| about.clone());
    macro_rules! each {
        ($($what:expr, $f:expr;)*) => { $(
            let (_, k) = cost(|| { black_box($f); });
            within(c, $what, k, 0, &CONSTANT, || about.clone())?;
        )* };
    }
    each! {
        "a timestamp as system time", SystemTime::try_from(t);
        "a system time as timestamp", v::Time_t::from(st);
        "a duration of the protocol", Duration::from(d2);
        "a duration of the standard library", v::Duration_t::from(sd);
        "comparing", (t < v::Time_t::TIME_INVALID, d < v::Duration_t::DURATION_INFINITE, a < b, p < q);
        "checked arithmetic", (a.checked_add(&b), a.checked_sub(&b), a.checked_mul(&b), a.checked_div(&b));
        "checked arithmetic of fragments", (p.checked_add(&q), p.checked_sub(&q), p.checked_mul(&q), p.checked_div(&q));
        "a locator as address", std::net::SocketAddr::from(mk_loc(&l));
        "an address as locator", v::Locator_t::from(addr);
    }
    c.nontrivial(about.as_bytes());
    Ok(())
}

// ------------------------------------------------------------- behaviour

fn histories(c: &mut Case) -> Verdict {
    let n = *c.rng.pick(&[10usize, 100, 1_000, 4_000]);
    let cfg = gen_config(&mut c.rng);
    let start = *c.rng.pick(&[0i64, 5, 1 << 33, -(1 << 40), i64::MAX - 100_000]);
    let mut w = v::MonitoredStatelessWriter::new(entity(&cfg), endpoint(&cfg), writer_attrs(&cfg, start), read(false, &[0; 8]));
    let mut h = Cache::new();
    let mut list = vec![];
    let order = c.rng.below(5);
    for i in 0..n {
        let (kind, key) = (c.rng.below(3) as u8, c.rng.arr());
        let (x, k) = cost(|| w.new_change(mk_ckind(kind), v::Data {}, v::InstanceHandle_t { entity_key: key }));
        within(c, "a new change", k, 0, &CONSTANT, || format!("number {i} of a writer that started at {start}"))?;
        let Some(x) = x else { return Ok(()) };
        list.push(x);
    }
    match order {
        0 => {}
        1 => list.reverse(),
        _ => {
            for i in 0..n {
                list.swap(i, c.rng.usize(n));
            }
        }
    }
    // of the same number: all, or most
    let same = mk_sn(start.saturating_add(c.rng.range(0, n + 1) as i64));
    for (i, x) in list.iter().enumerate() {
        let mut x = mk_chg(&chg(x));
        if order == 3 || (order == 4 && c.rng.chance(3, 4)) {
            x.sequence_number = same;
        }
        let (_, k) = cost(|| h.add_change(x));
        within(c, "adding to a history", k, i, &ELEMENTS, || format!("order {order}"))?;
        if i % 97 == 0 {
            let (_, k) = cost(|| (h.get_seq_num_min(), h.get_seq_num_max()));
            within(c, "minimum and maximum of a history", k, i, &ELEMENTS, || format!("order {order}"))?;
        }
    }
    let looked = |c: &mut Case, h: &mut Cache, m: usize, remove: bool| -> Verdict {
        let x = if order > 2 && c.rng.bool() { same } else { mk_sn(if c.rng.chance(1, 5) { c.rng.i64v() } else { start.saturating_add(c.rng.range(0, n + 1) as i64) }) };
        let (_, k) = cost(|| h.get_change(x).is_some());
        within(c, "looking up in a history", k, m, &ELEMENTS, || format!("{x:?}, order {order}, start {start}"))?;
        if remove {
            let (_, k) = cost(|| h.remove_change(x));
            within(c, "removing from a history", k, m, &ELEMENTS, || format!("{x:?}, order {order}, start {start}"))?;
        }
        Ok(())
    };
    for i in 0..40 {
        looked(c, &mut h, n, i % 2 == 1)?;
    }
    let mut p = v::ReaderProxy::new(mk_guid(c.rng.arr(), c.rng.arr()), c.rng.bool());
    let served = c.rng.usize(n + 1);
    for i in 0..served.min(200) {
        let (_, k) = cost(|| p.next_unsent_change(&list).is_some());
        within(c, "the next change for a reader", k, n, &ELEMENTS, || format!("call {i}, order {order}"))?;
    }
    let (_, k) = cost(|| p.unsent_changes(&list).count());
    within(c, "the unsent changes of a reader", k, n, &ELEMENTS, || format!("after {served} calls, order {order}"))?;
    // with a small history, whatever went before
    let few: Vec<v::CacheChange> = list.iter().take(3).map(|x| mk_chg(&chg(x))).collect();
    let (_, k) = cost(|| p.next_unsent_change(&few).is_some());
    within(c, "the next change for a reader", k, few.len(), &ELEMENTS, || "of three".into())?;
    c.count("changes_in_histories", n as u64);
    c.nontrivial(format!("{n} {start} {order} {served} {:?}", cfg.prefix).as_bytes());
    Ok(())
}

pub fn c29(x: &Ctx) {
    x.cases("big submessages", 500, big_pieces);
    x.cases("full buffers", 300, full_buffer);
    x.cases("long sessions", 60, long_session);
    x.cases("all different", 40, all_different);
    x.cases("hostile", 8_000, hostile);
    macro_rules! run {
        ($($t:ty),*) => { $( x.cases(<$t as Wire>::NAME, 1_500, wire::<$t>); )* };
    }
    crate::all_wires!(run);
    x.cases("sets", 3_000, sets);
    x.cases("conversions", 40_000, conversions);
    x.cases("histories", 150, histories);
    for w in ["operations_measured", "waiting_calls", "handling_calls", "values", "members_iterated", "changes_in_histories", "bytes_in_full_buffers"] {
        x.require(w, 1000 * x.scale.min(100) / 100);
    }
    if cfg!(monitor_effort) {
        x.require("steps_seen", 1_000_000 * x.scale.min(100) / 100);
        // the counters are awake
        let ((_, k), (_, l)) = (cost(|| busy(100)), cost(|| busy(100_000)));
        if x.only.is_none() && (l.edges < k.edges + 50_000 || l.bytes < k.bytes + 100_000) {
            x.inconclusive(format!("the counting of steps is not working: {k:?} {l:?}"));
        }
    }
    if std::env::var_os("EFFORT_SHOW").is_some() {
        for (k, w) in WORST.lock().unwrap().iter() {
            eprintln!("{k}: at most {} steps and {} bytes for small input, {:.1} steps and {:.1} bytes for each of an input of at least 40", w.0, w.1, w.2, w.3);
        }
    }
}
#[inline(never)]
fn busy(n: usize) -> usize {
    let v = black_box(vec![1u8; n]);
    let w = black_box(v.clone());
    let mut odd = 0;
    for x in black_box(&w[..]) {
        if black_box(*x) % 2 == 1 {
            odd += 1;
        }
    }
    odd
}
