//! C08: what decoding asks of the allocator. C09: lean workloads for the
//! sanitizers and the interpreter, and checks of the raw bit storage.
use crate::alloc;
use crate::behav::*;
use crate::ensure;
use crate::real::*;
use crate::recv::{gen_chunks, gen_session, mutate, Feed};
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use crate::wire::*;
use rtps_rs::verif_hooks as v;
use speedy::{Endianness, Readable, Writable};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

// ------------------------------------------------------------------- C08

/// "A small constant factor of the bytes supplied plus a small constant."
fn largest_allowed(len: usize) -> u64 {
    4 * len as u64 + 1024
}
fn peak_allowed(len: usize) -> i64 {
    8 * len as i64 + 4096
}
fn check_stats(what: &str, st: &alloc::Stats, len: usize, b: &[u8]) -> Verdict {
    ensure!(
        st.largest <= largest_allowed(len),
        "{what}: one allocation of {} bytes while handling {len} bytes of input; input: {}",
        st.largest,
        hex(&b[..b.len().min(400)])
    );
    ensure!(st.peak <= peak_allowed(len), "{what}: {} bytes requested at the same time while handling {len} bytes of input; input: {}", st.peak, hex(&b[..b.len().min(400)]));
    Ok(())
}

/// Claims that do not match what is there.
pub fn hostile_body(r: &mut Rng, kind: u8, le: bool) -> Vec<u8> {
    let mut e = Enc::new(le);
    let claim = *r.pick(&[u32::MAX, 0x8000_0000, 0x7fff_ffff, 0x0aaa_aaab, 0x1000_0000, 1_000_000, 70_000, 4096, 300, 257, 256, 255, 33]);
    match kind {
        0x06 | 0x08 | 0x12 => {
            e.raw(&r.arr::<8>());
            if kind == 0x08 {
                e.sn(r.i64v());
            }
            if kind == 0x12 {
                e.sn(r.i64v()).u32(r.u32v());
            } else {
                e.sn(r.i64v());
            }
            e.u32(claim);
        }
        0x0f => {
            if r.bool() {
                e.u32(1);
                e.loc(&gen_loc(r));
            }
            e.u32(claim);
        }
        _ => {
            e.u32(claim);
        }
    }
    let n = r.usize(60);
    e.raw(&r.bytes(n));
    e.b
}

/// Feeds a stream; checks every call's requests against the bytes it could
/// know of, and that dropping receiver and buffer returns all.
fn bounded_session(c: &mut Case, b: &[u8], chunks: &[usize], kind: i32) -> Verdict {
    let mut verdict = Ok(());
    let mut worst = (0u64, 0i64);
    let mut calls = 0u64;
    let mut items = 0u64;
    let mut panicked = false;
    // anything lazily set up once, outside of the measurement
    {
        let mut rx = v::MessageReceiver::new(mk_kind(kind));
        let mut buf = bytes::BytesMut::from(&b[..b.len().min(200)]);
        let _ = guarded(|| tokio_util::codec::Decoder::decode(&mut rx, &mut buf).is_ok());
    }
    let (_, total) = alloc::measure(|| {
        let mut rx = v::MessageReceiver::new(mk_kind(kind));
        let mut buf = bytes::BytesMut::new();
        let mut fed = 0;
        'all: for k in chunks {
            buf.extend_from_slice(&b[fed..fed + k]);
            fed += k;
            loop {
                let before = buf.len();
                alloc::mark();
                let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tokio_util::codec::Decoder::decode(&mut rx, &mut buf)));
                let st = alloc::since_mark();
                calls += 1;
                worst = (worst.0.max(st.largest), worst.1.max(st.peak));
                if st.largest > largest_allowed(before) || st.peak > peak_allowed(before) {
                    alloc::pause(|| {
                        verdict = check_stats("a call of decode", &st, before, &b[..fed]);
                    });
                    break 'all;
                }
                match o {
                    Err(_) => {
                        alloc::pause(|| {
                            panicked = true;
                            verdict = asked_too_much(last_panic(), b);
                        });
                        break 'all;
                    }
                    Ok(Ok(Some(_))) => items += 1,
                    Ok(Err(_)) => {}
                    Ok(Ok(None)) => break,
                }
                if calls > 4 * b.len() as u64 + 100 {
                    alloc::pause(|| verdict = bad(format!("decode does not come to an end on {}", hex(b))));
                    break 'all;
                }
            }
        }
    });
    if verdict.is_err() {
        return verdict;
    }
    if panicked {
        // not this property's business
        c.count("panics_left_to_other_properties", 1);
        return Ok(());
    }
    ensure!(total.live == 0, "after dropping the receiver and its buffer {} bytes are still allocated; input {}", total.live, hex(b));
    c.count("decode_calls_measured", calls);
    c.count("items", items);
    c.count("allocations_seen", total.calls);
    c.nontrivial(b);
    c.sample(|| format!("{} bytes in {} chunks: {calls} calls, largest request {} bytes, highest total of one call {}", b.len(), chunks.len(), worst.0, worst.1));
    Ok(())
}

fn bounded_read<T: Wire>(c: &mut Case) -> Verdict {
    let le = c.rng.bool();
    let (l, _) = T::make(&mut c.rng);
    let mut e = Enc::new(le);
    l(&mut e);
    let mut b = e.b;
    match c.rng.below(5) {
        0 => mutate(&mut c.rng, &mut b),
        1 if !b.is_empty() => {
            let at = (2 * c.rng.usize(b.len().div_ceil(2))).min(b.len().saturating_sub(1));
            let x = *c.rng.pick(&[u32::MAX, 0x7fff_ffff, 0x1000_0000, 0xffff_0000, 0x0000_ffff, 300, 257, 70_000, 0x0aaa_aaaa, 0xfffc_fffc]);
            let x = if le { x.to_le_bytes() } else { x.to_be_bytes() };
            for (i, y) in x.iter().enumerate() {
                if at + i < b.len() {
                    b[at + i] = *y;
                }
            }
            if c.rng.bool() {
                let n = c.rng.usize(b.len() + 1);
                b.truncate(n.max(at + 4));
            }
        }
        2 => {
            let n = c.rng.usize(b.len() + 1);
            b.truncate(n);
        }
        3 => {
            let n = c.rng.usize(40);
            b = c.rng.bytes(n);
        }
        _ => {}
    }
    let en = end(le);
    let mut accepted = 0;
    for way in 0..3 {
        let owned = b.clone();
        let mut out = None;
        let (p, st) = alloc::measure(|| {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let r = match way {
                    0 => T::read_from_buffer_with_ctx(en, &owned),
                    1 => T::read_with_length_from_buffer_with_ctx(en, &owned).0,
                    _ => T::read_from_buffer_owned_with_ctx(en, &owned),
                };
                let ok = r.is_ok();
                drop(r);
                ok
            }))
            .map_err(|_| ())
            .map(|ok| out = Some(ok))
        });
        if p.is_err() {
            asked_too_much(last_panic(), &b)?;
            c.count("panics_left_to_other_properties", 1);
            return Ok(());
        }
        check_stats(&format!("reading a {} (little endian: {le})", T::NAME), &st, b.len(), &b)?;
        ensure!(st.live == 0, "reading a {} from {} and dropping it leaves {} bytes allocated", T::NAME, hex(&b), st.live);
        accepted += out.unwrap_or(false) as u64;
        c.count("reads_measured", 1);
    }
    c.count("reads_accepted", accepted);
    c.nontrivial(&[T::NAME.as_bytes(), &b].concat());
    Ok(())
}

/// The same from a stream, whose length nobody knows beforehand. There speedy's
/// vectors take a count at its word, which is a finding; nothing else may.
fn bounded_stream_read<T: Wire>(c: &mut Case) -> Verdict {
    let le = c.rng.bool();
    let (l, _) = T::make(&mut c.rng);
    let mut e = Enc::new(le);
    l(&mut e);
    let mut b = e.b;
    b.truncate(3000);
    let list = T::NAME == "LocatorList_t";
    let mut claim = 0u64;
    if list {
        // a request of a gigabyte would end this process
        let n = match c.rng.below(3) {
            0 => c.rng.range(0, 10_000_000) as u32,
            1 => (b.len() / 24) as u32 + 1,
            _ => c.rng.range(0, 2000) as u32,
        };
        b[..4].copy_from_slice(&if le { n.to_le_bytes() } else { n.to_be_bytes() });
        claim = n as u64 * std::mem::size_of::<v::Locator_t>() as u64;
    } else if !b.is_empty() && c.rng.chance(3, 4) {
        let at = c.rng.usize(b.len());
        for (i, y) in c.rng.pick(&[[0xffu8; 4], [0, 0, 0xff, 0xff], [0x7f, 0xff, 0xff, 0xff], [0, 0, 1, 0], [0, 1, 0, 0]]).iter().enumerate() {
            if at + i < b.len() {
                b[at + i] = *y;
            }
        }
    }
    if T::NAME == "Parameter" && b.len() > 3 {
        let n = if le { u16::from_le_bytes([b[2], b[3]]) } else { u16::from_be_bytes([b[2], b[3]]) };
        claim = (n as u64).div_ceil(4) * 4;
    }
    if c.rng.bool() {
        let n = c.rng.usize(b.len() + 1);
        b.truncate(n);
    }
    let en = end(le);
    let owned = b.clone();
    for buffered in [false, true] {
        // speedy's own buffer
        let fixed = if buffered { 16 * 1024 } else { 0 };
        let (p, st) = alloc::measure(|| {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let src = std::io::Cursor::new(&owned[..]);
                drop(if buffered { T::read_from_stream_buffered_with_ctx(en, src) } else { T::read_from_stream_unbuffered_with_ctx(en, src) });
            }))
        });
        if p.is_err() {
            asked_too_much(last_panic(), &b)?;
            c.count("panics_left_to_other_properties", 1);
            return Ok(());
        }
        let most = largest_allowed(b.len()) + fixed;
        if st.largest > most && st.largest <= claim {
            return bad_key("vector-from-stream", format!("reading a {} from a stream of {} bytes: one allocation of {} bytes, as claimed: {}", T::NAME, b.len(), st.largest, hex(&b[..b.len().min(100)])));
        }
        ensure!(st.largest <= most, "reading a {} from a stream (buffered: {buffered}): one allocation of {} bytes while there are {} bytes of input; {}", T::NAME, st.largest, b.len(), hex(&b));
        ensure!(st.peak <= peak_allowed(b.len()) + fixed as i64, "reading a {} from a stream (buffered: {buffered}): {} bytes requested at the same time while there are {} bytes of input; {}", T::NAME, st.peak, b.len(), hex(&b));
        ensure!(st.live == 0, "reading a {} from a stream of {} and dropping it leaves {} bytes allocated", T::NAME, hex(&b), st.live);
        c.count("stream_reads_measured", 1);
    }
    c.nontrivial(&[&[3], T::NAME.as_bytes(), &b].concat());
    Ok(())
}

/// One receiver over very many messages and submessages: what it keeps must
/// not grow, and is judged by the reply locators that the model says it has
/// to remember, not by the lists it reports.
fn long_session(c: &mut Case) -> Verdict {
    let kind = gen_kind(&mut c.rng);
    let style = c.idx % 8;
    let n = *c.rng.pick(&[200usize, 1000, 3000, 12_000]);
    let mut r = Rng::new(c.rng.u64(), "C08", "long", 0);
    let mut most = 0usize;
    let mut surplus = 0u64;
    // per message its pieces, each with the number of reply locators known after it
    let mut msgs: Vec<Vec<(Vec<u8>, Option<usize>)>> = vec![];
    let distinct = if style < 5 { n.min(200) } else { n.min(40) };
    for _ in 0..distinct {
        let mut m = match style {
            0 => {
                let k = r.range(1, 6);
                gen_message(&mut r, &OPTS, k, true)
            }
            4 => gen_message(&mut r, &OPTS, 2, true),
            _ => gen_message(&mut r, &OPTS, 0, true),
        };
        // what precedes the last submessage
        let kinds: Vec<u8> = match style {
            0 => vec![],
            // always another sender, with locators
            1 => vec![0x07, 0x0d, 0x0f],
            2 => vec![0x0f],
            3 => vec![0x06; 3],
            4 => vec![0x0d],
            // many replies within one message, of one kind or mixed
            5 => vec![0x0f; r.range(20, 300)],
            6 => vec![0x0d; r.range(20, 300)],
            _ => (0..r.range(50, 500)).map(|_| *r.pick(&[0x0f, 0x0f, 0x0d, 0x0c, 0x07, 0x06, 0x09, 0x0e, 0x80, 0x01])).collect(),
        };
        // long runs with the same flags, and mixtures
        let same = r.bool().then(|| gen_flags(&mut r) | if r.bool() { 2 } else { 0 });
        for k in kinds {
            let s = match same {
                Some(f) => gen_sub_flags(&mut r, k, f, &OPTS),
                None => gen_sub_kind(&mut r, k, &OPTS),
            };
            m.subs.insert(0, s);
        }
        if n <= 3000 && !m.subs.is_empty() && r.chance(1, 3) {
            // much that means nothing, in a buffer shared with what does
            let most = r.range(2500, 65_000);
            let k = r.usize(m.subs.len());
            let s = &mut m.subs[k];
            if s.kind != PAD && s.kind != INFO_TS && s.body.len() < most {
                s.body.resize(most, r.u8());
                surplus += 1;
            }
        }
        let mut pieces = vec![];
        if style < 5 {
            let mut b = m.bytes();
            let (_, ctx) = m.meaning(kind);
            let mut know = Some(ctx.uni.len() + ctx.multi.len());
            if r.chance(1, 6) && style == 0 {
                mutate(&mut r, &mut b);
                know = None;
            }
            pieces.push((b, know));
        } else {
            let mut ctx = m.header_ctx(kind);
            pieces.push((header_bytes(m.version, m.vendor, m.prefix), Some(ctx.uni.len() + ctx.multi.len())));
            for s in &m.subs {
                apply(&mut ctx, &s.eff);
                pieces.push((s.bytes(), Some(ctx.uni.len() + ctx.multi.len())));
            }
        }
        most = most.max(pieces.iter().filter_map(|p| p.1).max().unwrap_or(0));
        msgs.push(pieces);
    }
    let rounds = if style < 5 { n } else { distinct * 2 };
    let biggest = msgs.iter().map(|m| m.iter().map(|p| p.0.len()).sum::<usize>()).max().unwrap_or(0);
    let mut worst = 0i64;
    let mut at_worst = 0;
    let mut panicked = None;
    let mut grown = None;
    let mut checks = 0u64;
    let (_, total) = alloc::measure(|| {
        let mut rx = v::MessageReceiver::new(mk_kind(kind));
        'all: for i in 0..rounds {
            let mut buf = bytes::BytesMut::new();
            for (j, (b, know)) in msgs[i % msgs.len()].iter().enumerate() {
                buf.extend_from_slice(b);
                for _ in 0..buf.len() + 4 {
                    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tokio_util::codec::Decoder::decode(&mut rx, &mut buf))) {
                        Err(_) => {
                            alloc::pause(|| panicked = Some(last_panic()));
                            break 'all;
                        }
                        Ok(Ok(None)) => break,
                        Ok(_) => {}
                    }
                }
                // the buffer is the caller's: only what the receiver holds counts
                if buf.is_empty() {
                    buf = bytes::BytesMut::new();
                } else if j + 1 < msgs[i % msgs.len()].len() {
                    continue;
                } else {
                    buf = bytes::BytesMut::new();
                }
                let live = alloc::live();
                checks += 1;
                if live > worst {
                    worst = live;
                    at_worst = i;
                }
                let locs = know.unwrap_or_else(|| rx.verif_context().unicast_reply_locator_list.len() + rx.verif_context().multicast_reply_locator_list.len());
                if live > 96 * locs as i64 + 2048 && grown.is_none() {
                    grown = Some((i, j, live, locs));
                }
            }
        }
    });
    if let Some(p) = panicked {
        c.count("panics_left_to_other_properties", 1);
        return asked_too_much(p, &[]);
    }
    if let Some((i, j, live, locs)) = grown {
        return bad(format!("after {} messages (each at most {biggest} bytes) and {} pieces of the last the receiver keeps {live} bytes although it has only {locs} reply locators to remember", i + 1, j + 1));
    }
    ensure!(total.live == 0, "after {rounds} messages and dropping the receiver {} bytes are still allocated", total.live);
    c.count("messages_through_one_receiver", rounds as u64);
    c.count("messages_with_long_surplus_in_sessions", surplus);
    c.count("points_in_sessions_where_kept_memory_was_measured", checks);
    c.nontrivial(format!("{style} {n} {worst} {at_worst} {biggest}").as_bytes());
    c.sample(|| format!("{rounds} messages of at most {biggest} bytes, at most {most} reply locators: the receiver kept at most {worst} bytes at {checks} points"));
    Ok(())
}

/// A panic about memory (others are other properties' business).
fn asked_too_much(p: (String, String), b: &[u8]) -> Verdict {
    if p.0.contains("capacity overflow") {
        return bad(format!("memory beyond all bounds was requested: {} at {}; input: {}", p.0, p.1, hex(b)));
    }
    Ok(())
}

pub fn c08(x: &Ctx) {
    x.cases("valid", 12_000, |c| {
        let m = gen_session(&mut c.rng, &OPTS);
        let b: Vec<u8> = m.iter().flat_map(|m| m.bytes()).collect();
        let ch = gen_chunks(&mut c.rng, b.len());
        let k = gen_kind(&mut c.rng);
        bounded_session(c, &b, &ch, k)
    });
    x.cases("mutated", 25_000, |c| {
        let n = c.rng.range(1, 6);
        let mut b = gen_message(&mut c.rng, &OPTS, n, false).bytes();
        mutate(&mut c.rng, &mut b);
        let ch = gen_chunks(&mut c.rng, b.len());
        let k = gen_kind(&mut c.rng);
        bounded_session(c, &b, &ch, k)
    });
    x.cases("hostile claims", 40_000, |c| {
        let mut b = header_bytes((2, 1), c.rng.arr(), c.rng.arr());
        for _ in 0..c.rng.range(1, 4) {
            let kind = *c.rng.pick(&[0x06u8, 0x08, 0x12, 0x0f, 0x0f, 0x0d, 0x07, 0x13, 0x0c, 0x0e, 0x09, 0x01, 0x77, 0x80]);
            let flags = gen_flags(&mut c.rng);
            let body = hostile_body(&mut c.rng, kind, flags & 1 == 1);
            let len = match c.rng.below(5) {
                0 => c.rng.u16v(),
                1 => 65535,
                _ => body.len() as u16,
            };
            b.extend(frame(kind, flags, len, &body));
        }
        let ch = gen_chunks(&mut c.rng, b.len());
        let k = gen_kind(&mut c.rng);
        bounded_session(c, &b, &ch, k)
    });
    x.cases("long bodies", 200, |c| {
        // full-size submessages: the factor counts here
        let le = c.rng.bool();
        let mut b = header_bytes((2, 2), c.rng.arr(), c.rng.arr());
        let kind = *c.rng.pick(&[0x0fu8, 0x0f, 0x06, 0x55, 0x01]);
        let body = if kind == 0x0f {
            let n = c.rng.range(1, 2700);
            let l: Vec<Loc> = (0..n).map(|_| gen_loc(&mut c.rng)).collect();
            let mut e = Enc::new(le);
            e.locs(&l);
            e.b
        } else {
            let n = c.rng.range(1000, 65000);
            c.rng.bytes(n)
        };
        b.extend(frame(kind, le as u8, body.len() as u16, &body));
        b.extend(frame(0x07, 1, 28, &[0; 28]));
        let ch = if c.rng.bool() { vec![b.len()] } else { vec![b.len() / 2, b.len() - b.len() / 2] };
        let k = gen_kind(&mut c.rng);
        bounded_session(c, &b, &ch, k)
    });
    macro_rules! run {
        ($($t:ty),*) => { $( x.cases(<$t as Wire>::NAME, 3000, bounded_read::<$t>); )* };
    }
    crate::all_wires!(run);
    macro_rules! run_streams {
        ($($t:ty),*) => { $( x.cases(&format!("{} from a stream", <$t as Wire>::NAME), 600, bounded_stream_read::<$t>); )* };
    }
    crate::all_wires!(run_streams);
    x.cases("long sessions", 200, long_session);
    x.require("stream_reads_measured", 1000);
    x.require("decode_calls_measured", 1000);
    x.require("reads_measured", 1000);
    x.require("reads_accepted", 500);
    x.require("allocations_seen", 1000);
    x.require("messages_through_one_receiver", 1000);
}

// ------------------------------------------------------------------- C09

/// Storage that the unchecked parts rely on: exactly the words its length
/// needs, and nothing marked beyond it.
fn storage_ok(what: &str, s: &v::BitSetRef) -> Verdict {
    let bv = s.get_ref();
    let (len, st) = (bv.len(), bv.storage());
    ensure!(st.len() == len.div_ceil(32), "{what}: {} storage words for a bit vector of {len} bits", st.len());
    if len % 32 != 0 {
        let l = st[st.len() - 1];
        ensure!(l >> (len % 32) == 0, "{what}: bits beyond the length {len} are set in the last word {l:#010x}");
    }
    Ok(())
}
fn bits_case(c: &mut Case) -> Verdict {
    let le = c.rng.bool();
    let nbits = match c.rng.below(6) {
        0 => *c.rng.pick(&[0u32, 1, 31, 32, 33, 63, 64, 65, 255, 256, 257, 258, 288, 511, 512, 4096, 65536, u32::MAX, u32::MAX - 30, u32::MAX - 31, 1 << 31]),
        1 => c.rng.u32v(),
        _ => c.rng.below(257) as u32,
    };
    let words = (nbits as usize).min(4096 + 64).div_ceil(32);
    let n = match c.rng.below(4) {
        0 => c.rng.usize(words + 1),
        1 => words + c.rng.usize(3),
        _ => words,
    };
    let mut e = Enc::new(le);
    e.u32(nbits);
    let full = c.rng.chance(1, 3);
    for _ in 0..n {
        let w = if full { u32::MAX } else { c.rng.word() };
        e.u32(w);
    }
    let cut = if c.rng.chance(1, 4) { c.rng.usize(4) } else { 0 };
    e.b.truncate(e.b.len() - cut);
    let b = e.b;
    c.note(|| format!("bit set from {}", hex(&b)));
    let x = match guarded(|| v::BitSetRef::read_from_buffer_with_ctx(end(le), &b)) {
        Ok(x) => x,
        Err((m, at)) => return bad_key("panic", format!("decoding a bit set from {} panicked: {m} at {at}", hex(&b))),
    };
    c.nontrivial(&b);
    match x {
        Err(_) => c.count("bit_sets_refused", 1),
        Ok(mut s) => {
            storage_ok("decoded bit set", &s)?;
            c.count("bit_sets_decoded", 1);
            let room = s.get_ref().len().min(4096);
            for _ in 0..c.rng.below(6) {
                let k = *c.rng.pick(&[0usize, 1, 31, 32, 255, room, room.saturating_sub(1), room + 1, room + 31, room + 32, 300]);
                let new = !s.contains(k);
                ensure!(s.insert(k) == new, "inserting bit {k} into a decoded bit set");
                storage_ok("bit set after an insertion", &s)?;
                if c.rng.bool() {
                    s.remove(k);
                    storage_ok("bit set after a removal", &s)?;
                }
            }
            let w = write(le, &s);
            let want = 4 + 4 * s.get_ref().storage().len();
            ensure!(w.len() == want, "a bit set of {} storage words was written as {} bytes", s.get_ref().storage().len(), w.len());
            // walking all of it reads all of its storage
            let n = s.iter().count();
            let m = s.into_bit_set().into_bit_vec().iter().filter(|x| *x).count();
            ensure!(n == m, "a bit set has {n} members by iteration and {m} marks in its storage");
        }
    }
    Ok(())
}

/// Everything that can be done with a wire type, on good and on bad bytes.
fn lean_wire<T: Wire>(r: &mut Rng, small: bool) -> u64 {
    let le = r.bool();
    let (l, made) = T::make(r);
    let mut e = Enc::new(le);
    l(&mut e);
    let mut b = e.b;
    if small {
        b.truncate(120);
    }
    let mut n = 0;
    for round in 0..2 {
        if round == 1 {
            mutate(r, &mut b);
            b.truncate(if small { 100 } else { 70_000 });
        }
        let stream = T::NAME != "LocatorList_t" || round == 0;
        let (rs, _) = read_all::<T>(le, &b, stream);
        for (_, x) in rs {
            if let Ok(x) = x {
                n += looked_at(&write(!le, &x));
                let mut d = DribbleW { b: vec![], step: 3 };
                let _ = x.write_to_stream_with_ctx(end(le), &mut d);
                let mut exact = vec![0u8; d.b.len()];
                let _ = x.write_to_buffer_with_ctx(end(le), &mut exact);
                n += looked_at(&d.b) ^ looked_at(&exact);
                if !exact.is_empty() {
                    let k = exact.len() - 1;
                    let _ = x.write_to_buffer_with_ctx(end(le), &mut exact[..k]);
                }
                if let (Some(m), 0) = (&made, round) {
                    n += (*m == x) as u64;
                }
            }
        }
    }
    n
}
/// A result that depends on each of the bytes, so that sanitizers notice
/// when one of them was never set.
fn looked_at(b: &[u8]) -> u64 {
    let h = crate::rng::hash_bytes(1, b);
    if h == 0 {
        return 1;
    }
    h & 0xff_ffff
}
fn looked_at_all<T: PartialEq>(x: T, y: T) -> u64 {
    u64::from(x == y)
}
fn lean_receiver(r: &mut Rng, small: bool) -> u64 {
    let k = r.range(1, if small { 3 } else { 8 });
    let mut b = gen_message(r, &OPTS, k, false).bytes();
    if r.chance(2, 3) {
        mutate(r, &mut b);
    }
    if small {
        b.truncate(260);
    }
    let kind = gen_kind(r);
    let ch = gen_chunks(r, b.len());
    let mut rx = Recv::new(kind);
    let (mut at, mut n) = (0, 0);
    for (i, k) in ch.iter().enumerate() {
        let k = if small && i > 8 { b.len() - at } else { *k };
        rx.feed(&b[at..at + k]);
        at += k;
        for _ in 0..b.len() + 4 {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rx.m_decode())) {
                Ok(Ok(Some(i))) => n += consume(i),
                Ok(Ok(None)) => break,
                Ok(Err(e)) => n += e.to_string().len() as u64,
                Err(_) => {
                    let _ = last_panic();
                    return n;
                }
            }
        }
        if at >= b.len() {
            break;
        }
    }
    n + looked_at_all(rx.ctx(), rx.ctx()) + rx.ctx().uni.len() as u64
}
trait MDecode {
    fn m_decode(&mut self) -> std::io::Result<Option<v::EntitySubmessage>>;
}
impl MDecode for Recv {
    fn m_decode(&mut self) -> std::io::Result<Option<v::EntitySubmessage>> {
        tokio_util::codec::Decoder::decode(&mut self.m, &mut self.buf)
    }
}
fn consume(i: v::EntitySubmessage) -> u64 {
    let i = item(i);
    let members: i64 = match &i {
        Item::AckNack { members, .. } | Item::Gap { members, .. } => members.iter().map(|x| x & 0xff).sum(),
        Item::NackFrag { members, .. } => members.iter().map(|x| i64::from(x & 0xff)).sum(),
        _ => 1,
    };
    members as u64 + looked_at_all(&i, &i.clone())
}
fn lean_framed(r: &mut Rng) -> u64 {
    use futures_core::Stream;
    let b = {
        let mut b = gen_message(r, &OPTS, 2, false).bytes();
        if r.bool() {
            mutate(r, &mut b);
        }
        b
    };
    let ch = gen_chunks(r, b.len());
    let feed = Feed::new(&b, &ch);
    let mut f = tokio_util::codec::FramedRead::with_capacity(feed, v::MessageReceiver::new(mk_kind(1)), *r.pick(&[0usize, 1, 64, 8192]));
    let w = std::task::Waker::noop();
    let mut cx = std::task::Context::from_waker(w);
    let mut n = 0;
    for _ in 0..b.len() * 3 + 20 {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| std::pin::Pin::new(&mut f).poll_next(&mut cx))) {
            Ok(std::task::Poll::Ready(Some(Ok(i)))) => n += consume(i),
            Ok(std::task::Poll::Ready(Some(Err(_)))) => n += 1,
            Ok(std::task::Poll::Ready(None)) => break,
            Ok(std::task::Poll::Pending) => {}
            Err(_) => {
                let _ = last_panic();
                break;
            }
        }
    }
    n
}
fn lean_sets(r: &mut Rng, small: bool) -> u64 {
    let mut n = 0;
    let base = *r.pick(&[0i64, 1, -3, i64::MAX - 3, i64::MIN, 1 << 32, i64::MAX - 255]);
    let mut s = v::SequenceNumberSet_t::new(mk_sn(base));
    let mut f = v::FragmentNumberSet_t::new(v::FragmentNumber_t::from(base as u32));
    for _ in 0..if small { 4 } else { 40 } {
        let d = *r.pick(&[0i64, 1, 30, 31, 32, 33, 63, 64, 200, 254, 255, 256, -1, 1000]);
        n += s.insert(mk_sn(base.wrapping_add(d))) as u64;
        n += f.insert(v::FragmentNumber_t::from((base as u32).wrapping_add(d as u32))) as u64;
        if r.chance(1, 4) {
            let le = r.bool();
            if let Ok(x) = v::SequenceNumberSet_t::read_from_buffer_with_ctx(end(le), &write(le, &s)) {
                n += (x == s) as u64;
                s = x;
            }
        }
    }
    if r.bool() {
        // dropped half-way through
        let mut it = s.into_iter();
        n += it.next().is_some() as u64;
        n + f.into_iter().take(300).map(|x| u64::from(frag(&x) & 0xff)).sum::<u64>()
    } else {
        n + s.into_iter().take(300).map(|x| sn(&x) as u64 & 0xff).sum::<u64>()
    }
}
fn lean_behaviour(r: &mut Rng, small: bool) -> u64 {
    let cfg = gen_config(r);
    let mut w = v::MonitoredStatelessWriter::new(entity(&cfg), endpoint(&cfg), writer_attrs(&cfg, 3), read(false, &[0; 8]));
    let mut h = Cache::new();
    let mut hist = vec![];
    let mut p = v::ReaderProxy::new(mk_guid([1; 12], [0, 0, 1, 7]), r.bool());
    let mut n = 0;
    for _ in 0..if small { 6 } else { 60 } {
        match r.below(4) {
            0 | 1 => {
                let c = w.new_change(mk_ckind(r.below(3) as u8), v::Data {}, v::InstanceHandle_t { entity_key: r.arr() });
                hist.push(mk_chg(&chg(&c)));
                h.add_change(c);
            }
            2 => {
                let k = mk_sn(3 + r.below(20) as i64);
                h.remove_change(k);
                n += h.get_change(k).map_or(0, |c| looked_at_all(chg(c), chg(c)) + sn(&c.sequence_number) as u64);
                if !hist.is_empty() && r.bool() {
                    let i = r.usize(hist.len());
                    hist.swap_remove(i);
                }
            }
            _ => {
                n += p.unsent_changes(hist.as_slice()).count() as u64;
                n += p.next_unsent_change(hist.as_slice()).map_or(0, |c| sn(&c.sequence_number) as u64);
            }
        }
        n += h.get_seq_num_min().map_or(0, |x| sn(&x) as u64 & 1);
    }
    n
}
fn lean_values(r: &mut Rng) -> u64 {
    let mut n = 0;
    let t: v::Time_t = read(false, &r.arr::<8>());
    if let Ok(Ok(s)) = guarded(|| SystemTime::try_from(t)) {
        n += s.duration_since(UNIX_EPOCH).map_or(0, |d| d.subsec_nanos() as u64);
    }
    let d: v::Duration_t = read(true, &r.arr::<8>());
    n += guarded(|| Duration::from(d)).map_or(0, |d| d.as_secs() & 1);
    let l = mk_loc(&gen_loc(r));
    n += guarded(|| std::net::SocketAddr::from(l).port() as u64).unwrap_or(0);
    let b = r.arr::<16>();
    for a in [std::net::SocketAddr::new(std::net::IpAddr::from(b), 9), std::net::SocketAddr::new(std::net::IpAddr::from([b[0], b[1], b[2], b[3]]), 9)] {
        n += v::Locator_t::from(a).port as u64;
    }
    n
}

/// Runs one of the lean workloads; what it allocated must be gone again.
fn lean(c: &mut Case, small: bool) -> Verdict {
    let pick = c.rng.below(9);
    macro_rules! wires {
        ($($t:ty),*) => {{
            const N: usize = [$( <$t as Wire>::NAME ),*].len();
            let fs: [fn(&mut Rng, bool) -> u64; N] = [$( lean_wire::<$t> ),*];
            let k = c.rng.usize(N);
            fs[k]
        }};
    }
    let wire: fn(&mut Rng, bool) -> u64 = crate::all_wires!(wires);
    let go = |r: &mut Rng| match pick {
        0..=2 => wire(r, small),
        3 | 4 => lean_receiver(r, small),
        5 => lean_framed(r),
        6 => lean_sets(r, small),
        7 => lean_behaviour(r, small),
        _ => lean_values(r),
    };
    let mut second = c.rng.clone();
    let seed = c.rng.clone().u64();
    let what = ["wire_types", "wire_types", "wire_types", "receivers", "receivers", "framed_readers", "number_sets", "behaviour", "conversions"][pick as usize];
    let rng = &mut c.rng;
    let first = match guarded(|| go(rng)) {
        Ok(n) => n,
        Err(_) => {
            // a panic is not a memory error; other properties report it
            c.count("panics_left_to_other_properties", 1);
            return Ok(());
        }
    };
    c.count(what, 1);
    c.nontrivial_u64(seed ^ first);
    c.sample(|| format!("{what} drawn from {seed:#x}: result {first}"));
    if !small {
        // the second time, so that nothing is set up lazily any more
        let (n, st) = alloc::measure(|| go(&mut second));
        ensure!(n == first, "{what} drawn from {seed:#x} gave {first}, then {n}: something it read was not determined by its input");
        ensure!(st.live == 0, "{what} drawn from {seed:#x} leaked {} bytes", st.live);
        c.count("leak_checks", 1);
    }
    Ok(())
}

pub fn c09(x: &Ctx) {
    let small = cfg!(miri);
    x.cases("bit storage", 60_000, bits_case);
    x.cases("lean", 100_000, |c| lean(c, small));
    if !small {
        for k in ["bit_sets_decoded", "bit_sets_refused", "wire_types", "receivers", "framed_readers", "number_sets", "behaviour", "conversions", "leak_checks"] {
            x.require(k, 100 * x.scale.min(100) / 100);
        }
    }
}
