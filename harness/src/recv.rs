//! Monitors for the message receiver (C01-C07, C24).
use crate::ensure;
use crate::real::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use bytes::BytesMut;
use rtps_rs::verif_hooks as v;
use speedy::{Readable, Writable};
use std::io::ErrorKind;

pub fn gen_chunks(r: &mut Rng, n: usize) -> Vec<usize> {
    let style = r.below(6);
    let mut left = n;
    let mut out = vec![];
    while left > 0 {
        let k = match style {
            0 => left,
            1 => 1,
            2 => r.range(1, 8),
            3 => *r.pick(&[1, 3, 4, 19, 20, 21, 24, 28]),
            4 => r.range(1, left),
            _ => {
                if r.bool() { r.range(1, 4) } else { r.range(1, 200) }
            }
        }
        .min(left);
        out.push(k);
        left -= k;
    }
    out
}

/// Damages a message.
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.below(4) {
        if b.is_empty() {
            return;
        }
        match r.below(9) {
            0 => {
                let i = r.usize(b.len());
                b[i] ^= 1 << r.below(8);
            }
            1 => {
                let i = r.usize(b.len());
                b[i] = *r.pick(&[0, 1, 2, 3, 4, 0x7f, 0x80, 0xff, 0x06, 0x07, 0x08, 0x09, 0x0c, 0x0d, 0x0e, 0x0f, 0x12, 0x13]);
            }
            2 => {
                let i = r.usize(b.len() + 1);
                b.truncate(i);
            }
            3 => {
                let i = r.usize(b.len() + 1);
                let n = r.range(1, 12);
                let x = r.bytes(n);
                b.splice(i..i, x);
            }
            4 => {
                let i = r.usize(b.len());
                let j = (i + r.range(1, 12)).min(b.len());
                b.drain(i..j);
            }
            5 => {
                // overwrite a word with a suggestive one
                if b.len() >= 4 {
                    let i = r.usize(b.len() - 3);
                    let x = *r.pick(&[0u32, 1, 2, 255, 256, 257, 0xff, 0xffff, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0xffff_ffe1, 0xffff_ffe0, 0x0aaa_aaab]);
                    let w = if r.bool() { x.to_le_bytes() } else { x.to_be_bytes() };
                    b[i..i + 4].copy_from_slice(&w);
                }
            }
            6 => {
                // a length field, wherever one may be
                if let Some(p) = boundaries(b).get(r.usize(8)).copied() {
                    if p + 4 <= b.len() {
                        let l = *r.pick(&[0u16, 1, 3, 4, 7, 8, 11, 12, 15, 16, 23, 24, 27, 28, 255, 256, 65535]);
                        let l = if b[p + 1] & 1 == 1 { l.to_le_bytes() } else { l.to_be_bytes() };
                        b[p + 2..p + 4].copy_from_slice(&l);
                    }
                }
            }
            7 => {
                let i = r.usize(b.len());
                let j = (i + r.range(1, 60)).min(b.len());
                let x = b[i..j].to_vec();
                let k = r.usize(b.len() + 1);
                b.splice(k..k, x);
            }
            _ => {
                let n = r.range(0, 40);
                let x = r.bytes(n);
                b.extend(x);
            }
        }
    }
}
/// starts of submessages
pub fn boundaries(b: &[u8]) -> Vec<usize> {
    let mut p = 20;
    let mut out = vec![];
    while p + 4 <= b.len() {
        out.push(p);
        let l = if b[p + 1] & 1 == 1 { u16::from_le_bytes([b[p + 2], b[p + 3]]) } else { u16::from_be_bytes([b[p + 2], b[p + 3]]) };
        p += 4 + l as usize;
    }
    out
}
/// Is an unimplemented DATA or DATA_FRAG submessage what comes up next when
/// these bytes have arrived in these pieces?
fn reaches_data(b: &[u8], chunks: &[usize], kind: i32) -> bool {
    let mut rf = Ref::new(kind);
    let (mut p, mut fed) = (0, 0);
    for k in chunks {
        fed = (fed + k).min(b.len());
        while p < fed {
            match rf.step(&b[p..fed]) {
                Step::NeedMore => break,
                Step::Data => return true,
                Step::Silent(n) | Step::Item(n, _) | Step::BadHeader(n) | Step::BadSub(n) => p += n,
            }
        }
    }
    false
}
pub fn panic_verdict<T>(p: (String, String), fed: &[u8], chunks: &[usize], kind: i32) -> Result<T, Bad> {
    if p.0.starts_with("not implemented") && reaches_data(fed, chunks, kind) {
        return bad_key("data-unimplemented", format!("a DATA or DATA_FRAG submessage makes decode panic: {} at {}", p.0, p.1));
    }
    bad_key("panic", format!("decode panicked: {} at {}; bytes fed so far: {}", p.0, p.1, hex(fed)))
}

fn survive(c: &mut Case, bytes: &[u8], chunks: &[usize], kind: i32) -> Verdict {
    let mut rx = Recv::new(kind);
    let mut fed = 0;
    let (mut items, mut errs) = (0u64, 0u64);
    let mut sig = vec![];
    let bound = bytes.len() + chunks.len() * 2 + 8;
    let mut calls = 0;
    let mut feed = chunks.iter();
    loop {
        match feed.next() {
            Some(k) => {
                rx.feed(&bytes[fed..fed + k]);
                fed += k;
            }
            None => break,
        }
        loop {
            calls += 1;
            let before = rx.buf.len();
            ensure!(calls <= bound, "more than {bound} calls were needed for {} bytes", bytes.len());
            let o = match guarded(|| rx.next()) {
                Ok(o) => o,
                Err(p) => {
                    c.note(|| format!("panic after feeding {} bytes in chunks {:?}", fed, &chunks[..chunks.len().min(50)]));
                    return panic_verdict(p, &bytes[..fed], chunks, kind);
                }
            };
            let after = rx.buf.len();
            ensure!(after <= before, "decode made the buffer grow from {before} to {after} bytes");
            match o {
                Out::Item(i) => {
                    ensure!(after < before, "an item was returned without consuming input: {i:?}; input {}", hex(bytes));
                    items += 1;
                    sig.push(1);
                }
                Out::Err(k) => {
                    ensure!(after < before, "an error ({k:?}) was returned without consuming input, so draining never ends; input {}", hex(bytes));
                    errs += 1;
                    sig.push(2);
                }
                Out::None => {
                    sig.push(3);
                    if before == after {
                        break;
                    }
                }
            }
        }
    }
    c.count("decode_calls", calls as u64);
    c.count("items", items);
    c.count("errors", errs);
    c.count("bytes_fed", fed as u64);
    c.nontrivial(&[&sig[..], bytes].concat());
    Ok(())
}

pub fn c01(x: &Ctx) {
    x.cases("random", 60_000, |c| {
        let n = match c.rng.below(6) {
            0 => c.rng.range(0, 24),
            1 => c.rng.range(0, 2000),
            _ => c.rng.range(0, 120),
        };
        let mut b = vec![];
        if c.rng.chance(7, 8) {
            b = header_bytes((2, c.rng.u8()), [0, 0], c.rng.arr());
        }
        if c.rng.bool() {
            b.extend(c.rng.bytes(n));
        } else {
            while b.len() < n {
                let k = if c.rng.bool() { *c.rng.pick(&ENTITY_KINDS) } else { *c.rng.pick(&INFO_KINDS) };
                let f = c.rng.u8();
                let m = *c.rng.pick(&[0usize, 1, 4, 8, 12, 16, 20, 24, 28, 40]);
                let body = c.rng.bytes(m);
                let d = if c.rng.chance(4, 5) { m as u16 } else { c.rng.u16v() % 64 };
                b.extend(frame(k, f, d, &body));
            }
        }
        let ch = gen_chunks(&mut c.rng, b.len());
        c.sample(|| format!("{} bytes {} in {} chunks", b.len(), hex(&b), ch.len()));
        let k = gen_kind(&mut c.rng);
        survive(c, &b, &ch, k)
    });
    x.cases("damaged", 80_000, |c| {
        let n = c.rng.range(1, 8);
        let e = c.rng.chance(1, 4);
        let m = gen_message(&mut c.rng, &Opts { wild_ports: true, ..OPTS }, n, e);
        let mut b = m.bytes();
        if c.rng.chance(1, 8) {
            let e2 = c.rng.bool();
            let m2 = gen_message(&mut c.rng, &OPTS, n, e2);
            b.extend(m2.bytes());
        }
        mutate(&mut c.rng, &mut b);
        let ch = gen_chunks(&mut c.rng, b.len());
        c.sample(|| format!("damaged {} -> {}", m.describe(), hex(&b)));
        let k = gen_kind(&mut c.rng);
        survive(c, &b, &ch, k)
    });
    // every kind, a few flags, every short declared length, alone and followed
    // by another submessage, cut short and complete
    x.sweep("kinds", 256 * 4, |c| {
        let (kind, flags) = ((c.idx / 4) as u8, (c.idx % 4) as u8 | if c.rng.bool() { 0xf4 } else { 0 });
        for len in 0..=48usize {
            for follow in [false, true] {
                let mut b = header_bytes((2, 1), [1, 2], [3; 12]);
                let body = c.rng.bytes(len);
                b.extend(frame(kind, flags, len as u16, &body));
                let cut = b.len() - c.rng.usize(len + 4);
                if follow {
                    b.extend(gen_sub_kind(&mut c.rng, HEARTBEAT, &OPTS).bytes());
                    survive(c, &b, &[b.len()], 1)?;
                } else {
                    survive(c, &b[..cut], &[cut], 1)?;
                }
            }
        }
        Ok(())
    });
    // hostile counts and bit counts in otherwise complete submessages
    x.cases("counts", 20_000, |c| {
        let kind = *c.rng.pick(&[ACKNACK, GAP, NACK_FRAG, INFO_REPLY, INFO_REPLY_IP4]);
        let flags = c.rng.u8();
        let mut e = Enc::new(flags & 1 == 1);
        let pre = match kind {
            ACKNACK | NACK_FRAG => *c.rng.pick(&[16, 20]),
            GAP => 24,
            _ => *c.rng.pick(&[0, 4, 28]),
        };
        let p = c.rng.bytes(pre);
        let v = c.rng.u32v();
        let v = if c.rng.bool() { u32::MAX - (v & 63) } else { v };
        let m = c.rng.range(0, 48);
        let t = c.rng.bytes(m);
        e.raw(&p).u32(v).raw(&t);
        let mut b = header_bytes((2, 1), [1, 2], [3; 12]);
        b.extend(frame(kind, flags, e.b.len() as u16, &e.b));
        b.extend(gen_sub_kind(&mut c.rng, ACKNACK, &OPTS).bytes());
        survive(c, &b, &[b.len()], 1)
    });
    // long runs without a single item: neither recursion nor a stall
    x.cases("long", 6, |c| {
        let n = if x.scale < 100 { 500 } else { 300_000 };
        let mut b = header_bytes((2, 1), [1, 2], [3; 12]);
        let w = c.idx % 6;
        for i in 0..n {
            match w {
                0 => b.extend(frame(PAD, 0, 0, &[])),
                1 => b.extend(frame(0x80, 1, 4, &[1, 2, 3, 4])),
                2 => b.extend(frame(INFO_TS, 3, 0, &[])),
                3 => b.extend(frame(INFO_DST, 0, 12, &[7; 12])),
                4 => b.extend(frame(HEARTBEAT, 1, 3, &[1, 2, 3])), // all errors
                _ => b.extend(if i % 2 == 0 { frame(PAD, 1, 0, &[]) } else { frame(0xff, 0, 1, &[0]) }),
            }
        }
        b.extend(frame(HEARTBEAT, 1, 28, &[5; 28]));
        c.count("long_run_bytes", b.len() as u64);
        survive(c, &b, &[b.len()], 1)
    });
    // many rejected headers in a row
    x.cases("garbage", 200, |c| {
        let n = c.rng.range(1, if x.scale < 100 { 300 } else { 20_000 });
        let b = c.rng.bytes(n);
        let ch = gen_chunks(&mut c.rng, b.len());
        survive(c, &b, &ch, 1)
    });
    x.require("items", 100);
    x.require("errors", 100);
}

/// Feeds whole messages to one receiver and compares what comes out.
fn check_messages(c: &mut Case, msgs: &[Message], kind: i32, check_items: bool, check_ctx: bool) -> Verdict {
    let mut rx = Recv::new(kind);
    let mut sig: Vec<u8> = vec![];
    for (mi, m) in msgs.iter().enumerate() {
        let b = m.bytes();
        c.note(|| format!("message {mi}: {} = {}", m.describe(), hex(&b)));
        rx.feed(&b);
        let (exp, final_ctx) = m.meaning(kind);
        let mut got = vec![];
        loop {
            match rx.next() {
                Out::None => break,
                Out::Err(k) => return bad(format!("message {mi} is well-formed but decoding gave error {k:?} after {} items; {} = {}", got.len(), m.describe(), hex(&b))),
                Out::Item(i) => {
                    let g = got.len();
                    ensure!(g < exp.len(), "an item too many was delivered from message {mi} ({} expected): {i:?}; {} = {}", exp.len(), m.describe(), hex(&b));
                    if check_items {
                        ensure!(exp[g].0 == i, "item {g} of message {mi} differs: expected {:?}, got {i:?}; {} = {}", exp[g].0, m.describe(), hex(&b));
                    }
                    if check_ctx {
                        if let Some(d) = exp[g].1.diff(&rx.ctx()) {
                            return bad(format!("context at item {g} of message {mi}: {d}; {} = {}", m.describe(), hex(&b)));
                        }
                        c.count("contexts_compared", 1);
                    }
                    sig.push(i.kind().len() as u8);
                    c.count("items", 1);
                    c.count(
                        match i {
                            Item::AckNack { .. } => "items_acknack",
                            Item::Gap { .. } => "items_gap",
                            Item::Heartbeat { .. } => "items_heartbeat",
                            Item::HeartbeatFrag { .. } => "items_heartbeat_frag",
                            _ => "items_nack_frag",
                        },
                        1,
                    );
                    got.push(i);
                }
            }
        }
        ensure!(got.len() == exp.len(), "only {} of {} items were delivered from message {mi}; {} = {}", got.len(), exp.len(), m.describe(), hex(&b));
        if check_ctx {
            if let Some(d) = final_ctx.diff(&rx.ctx()) {
                return bad(format!("context at the end of message {mi}: {d}; {} = {}", m.describe(), hex(&b)));
            }
            c.count("contexts_compared", 1);
        }
        ensure!(rx.buf.is_empty(), "{} bytes of message {mi} were left over", rx.buf.len());
        for s in &m.subs {
            c.count("submessages", 1);
            sig.extend([s.kind, s.flags, s.body.len() as u8]);
        }
    }
    if msgs.iter().any(|m| !m.subs.is_empty()) {
        c.nontrivial(&sig);
    }
    Ok(())
}
/// Several messages for one receiver; all but the last one end explicitly.
pub fn gen_session(r: &mut Rng, o: &Opts) -> Vec<Message> {
    let n = if r.chance(1, 3) { r.range(2, 4) } else { 1 };
    (0..n)
        .map(|i| {
            let k = gen_count(r);
            let e = i + 1 < n || r.chance(1, 8);
            gen_message(r, o, k, e)
        })
        .collect()
}

/// One receiver over more messages and submessages than small counters hold:
/// the last ones must be handled like the first.
fn marathon(x: &Ctx, c: &mut Case, items: bool, ctx: bool) -> Verdict {
    let total = if x.scale < 100 || x.guided.is_some() { 300 } else { 140_000 };
    let kind = gen_kind(&mut c.rng);
    let style = c.idx % 8;
    let o = Opts { entity: *c.rng.pick(&[10, 50, 90]), ..OPTS };
    let only: Option<u8> = match style {
        3 => Some(*c.rng.pick(&ENTITY_KINDS)),
        4 => Some(*c.rng.pick(&[INFO_TS, INFO_SRC, INFO_DST, INFO_REPLY, INFO_REPLY_IP4])),
        5 => Some(*c.rng.pick(&[PAD, 0x80, 0xff, 0x30])),
        _ => None,
    };
    let damaged = if style == 6 { 8 } else { 0 };
    let mut rx = Recv::new(kind);
    let mut rf = Ref::new(kind);
    let mut pool: Vec<Vec<u8>> = vec![];
    let (mut subs, mut msgs, mut compared, mut errors) = (0usize, 0usize, 0u64, 0u64);
    while subs + msgs < total {
        if pool.is_empty() || c.rng.chance(1, 500) {
            pool.clear();
            let m = gen_message(&mut c.rng, &o, 40, false);
            for mut s in m.subs {
                if let Some(k) = only {
                    s = gen_sub_kind(&mut c.rng, k, &o);
                }
                if c.rng.below(10) < damaged && s.need > 1 && known_kind(s.kind) {
                    s.body.truncate(s.need - 1);
                }
                pool.push(s.bytes());
            }
        }
        let per = match style {
            0 => total,
            1 => 1,
            2 => 0,
            _ => c.rng.range(0, 400),
        };
        let prefix = c.rng.arr();
        let mut b = header_bytes((c.rng.below(3) as u8, c.rng.u8()), [1, c.rng.u8()], prefix);
        for _ in 0..per {
            let s = c.rng.pick(&pool);
            b.extend(s);
        }
        // ends with one that extends to the end
        b.extend(frame(HEARTBEAT, c.rng.u8(), 0, &[1; 28]));
        subs += per + 1;
        msgs += 1;
        let where_ = |p: usize| format!("message {msgs}, {} bytes into it, after about {subs} submessages in all", p);
        rx.feed(&b);
        let mut p = 0;
        loop {
            let at = p;
            let (o, want) = match rf.step(&b[p..]) {
                Step::NeedMore => break,
                Step::Silent(n) => {
                    p += n;
                    continue;
                }
                Step::Item(n, i) => {
                    p += n;
                    (rx.next(), Some(i))
                }
                Step::BadSub(n) => {
                    p += n;
                    (rx.next(), None)
                }
                Step::BadHeader(_) | Step::Data => return bad("the generator made something undefined".to_string()),
            };
            match (&o, &want) {
                (Out::Item(i), Some(w)) => ensure!(!items || i == w, "{}: expected {w:?}, got {i:?}; submessage {}", where_(at), hex(&b[at..p])),
                (Out::Err(_), None) => errors += 1,
                _ => return bad(format!("{}: expected {}, got {o:?}; submessage {}", where_(at), want.map_or("an error".into(), |e| format!("{e:?}")), hex(&b[at..p]))),
            }
            if ctx {
                let d = rf.ctx.diff(&rx.ctx());
                ensure!(d.is_none(), "{}: context {d:?}; submessage {}", where_(at), hex(&b[at..p]));
            }
            compared += 1;
        }
        let o = rx.next();
        ensure!(o == Out::None && rx.buf.is_empty(), "{}: expected no more, got {o:?} with {} bytes left", where_(p), rx.buf.len());
        let d = rf.ctx.diff(&rx.ctx());
        ensure!(d.is_none(), "{}: context at the end {d:?}", where_(p));
    }
    c.count("submessages_of_long_sessions", subs as u64);
    c.count("messages_of_long_sessions", msgs as u64);
    c.count("errors_in_long_sessions", errors);
    c.nontrivial(format!("{style} {compared} {errors} {only:?}").as_bytes());
    c.sample(|| format!("{subs} submessages in {msgs} messages through one receiver: {compared} outcomes compared, {errors} errors"));
    Ok(())
}

pub fn c02(x: &Ctx) {
    x.cases("marathon", 2, |c| marathon(x, c, true, false));
    x.cases("sessions", 60_000, |c| {
        let big = c.rng.chance(1, 60);
        let o = Opts { big, entity: 70, ..OPTS };
        let s = gen_session(&mut c.rng, &o);
        let k = gen_kind(&mut c.rng);
        c.sample(|| s.iter().map(|m| m.describe()).collect::<Vec<_>>().join(" || "));
        check_messages(c, &s, k, true, false)
    });
    // one item of each kind under each flag byte, between others of the
    // opposite byte order
    x.sweep("flags", 5 * 256, |c| {
        let kind = ENTITY_KINDS[(c.idx / 256) as usize];
        let flags = (c.idx % 256) as u8;
        for _ in 0..4 {
            let mut subs = vec![];
            let before = *c.rng.pick(&ENTITY_KINDS);
            subs.push(gen_sub_flags(&mut c.rng, before, !flags, &OPTS));
            subs.push(gen_sub_flags(&mut c.rng, kind, flags, &OPTS));
            let after = *c.rng.pick(&ENTITY_KINDS);
            subs.push(gen_sub_flags(&mut c.rng, after, !flags, &OPTS));
            let m = Message { version: (2, 3), vendor: [1, 3], prefix: [4; 12], subs };
            check_messages(c, &[m], 1, true, false)?;
        }
        Ok(())
    });
    // long messages: many identical and many different submessages
    x.cases("long", 24, |c| {
        let n = if x.scale < 100 { 40 } else { c.rng.range(1000, 20_000) };
        let o = Opts { entity: 90, ..OPTS };
        let mut m = gen_message(&mut c.rng, &o, n, false);
        if c.rng.bool() {
            let s = m.subs[0].clone();
            m.subs.iter_mut().step_by(3).for_each(|t| *t = s.clone());
        }
        check_messages(c, &[m], 1, true, false)
    });
    // a single member at every offset, all bit counts
    x.sweep("bits", 257, |c| {
        let nbits = c.idx as u32;
        for kind in [ACKNACK, GAP, NACK_FRAG] {
            for le in [0u8, 1] {
                let mut subs = vec![];
                for i in 0..nbits.max(1) {
                    let mut words = vec![0u32; nbits.div_ceil(32) as usize];
                    if i < nbits {
                        words[i as usize / 32] |= 1 << (i % 32);
                    }
                    let mut e = Enc::new(le == 1);
                    e.raw(&[1, 2, 3, 4, 5, 6, 7, 8]).sn(0x1_0000_0000);
                    let mut eff = |kind: u8| {
                        let (rd, wr) = ([1, 2, 3, 4], [5, 6, 7, 8]);
                        match kind {
                            ACKNACK => {
                                e.bits(nbits, &words).i32(-7);
                                let m = if i < nbits { vec![0x1_0000_0000 + i as i64] } else { vec![] };
                                Item::AckNack { reader: rd, writer: wr, base: 0x1_0000_0000, members: m, count: -7, flags: le }
                            }
                            GAP => {
                                e.sn(99).bits(nbits, &words);
                                let m = if i < nbits { vec![99 + i as i64] } else { vec![] };
                                Item::Gap { reader: rd, writer: wr, start: 0x1_0000_0000, base: 99, members: m }
                            }
                            _ => {
                                e.u32(99).bits(nbits, &words).i32(8);
                                let m = if i < nbits { vec![99 + i] } else { vec![] };
                                Item::NackFrag { reader: rd, writer: wr, sn: 0x1_0000_0000, base: 99, members: m, count: 8 }
                            }
                        }
                    };
                    let it = eff(kind);
                    subs.push(Sub { kind, flags: le, need: 0, body: e.b, last: false, eff: Eff::Deliver(it) });
                }
                let m = Message { version: (2, 3), vendor: [1, 3], prefix: [4; 12], subs };
                check_messages(c, &[m], 1, true, false)?;
            }
        }
        Ok(())
    });
    for k in ["items_acknack", "items_gap", "items_heartbeat", "items_heartbeat_frag", "items_nack_frag"] {
        x.require(k, 20);
    }
}

/// Feeds a session one submessage at a time and compares the context after
/// each.
fn check_stepwise(c: &mut Case, msgs: &[Message], kind: i32) -> Verdict {
    let mut rx = Recv::new(kind);
    let init = Context::initial(kind);
    if let Some(d) = init.diff(&rx.ctx()) {
        return bad(format!("context of a new receiver: {d}"));
    }
    for (mi, m) in msgs.iter().enumerate() {
        let mut ctx = m.header_ctx(kind);
        rx.feed(&header_bytes(m.version, m.vendor, m.prefix));
        let mut i = 0;
        loop {
            for o in rx.drain() {
                if let Out::Err(k) = o {
                    return bad(format!("error {k:?} in well-formed message {mi} at submessage {i}: {}", m.describe()));
                }
            }
            if let Some(d) = ctx.diff(&rx.ctx()) {
                let what = if i == 0 { "its header".to_string() } else { format!("submessage {} {:?}", i - 1, m.subs[i - 1]) };
                return bad(format!("context of message {mi} after {what}: {d}; whole message {} = {}", m.describe(), hex(&m.bytes())));
            }
            c.count("contexts_compared", 1);
            if i == m.subs.len() {
                break;
            }
            rx.feed(&m.subs[i].bytes());
            apply(&mut ctx, &m.subs[i].eff);
            i += 1;
        }
    }
    Ok(())
}

pub fn c03(x: &Ctx) {
    x.cases("marathon", 2, |c| marathon(x, c, false, true));
    let o = Opts { entity: 25, wild_ports: true, ..OPTS };
    x.cases("sessions", 60_000, |c| {
        let o = Opts { big: c.rng.chance(1, 80), ..o.clone() };
        let s = gen_session(&mut c.rng, &o);
        let k = gen_kind(&mut c.rng);
        c.sample(|| s.iter().map(|m| m.describe()).collect::<Vec<_>>().join(" || "));
        check_messages(c, &s, k, false, true)?;
        check_stepwise(c, &s, k)
    });
    // every ordered triple of INFO kinds under every combination of the flag
    // bits that matter, followed by an entity submessage and a second message
    x.sweep("triples", 1000, |c| {
        let t = [c.idx % 10, c.idx / 10 % 10, c.idx / 100 % 10];
        for fl in 0..16u8 {
            let mut subs: Vec<Sub> = t
                .iter()
                .enumerate()
                .map(|(i, k)| {
                    // each kind with and without its 0x02 flag
                    let kind = INFO_KINDS[*k as usize % 5];
                    let f = (fl >> i & 1) | if *k >= 5 { 2 } else { 0 } | if fl & 8 != 0 { 0xf0 } else { 0 };
                    gen_sub_flags(&mut c.rng, kind, f, &OPTS)
                })
                .collect();
            subs.push(gen_sub_kind(&mut c.rng, HEARTBEAT, &OPTS));
            let mut last = gen_sub_kind(&mut c.rng, ACKNACK, &OPTS);
            last.last = true;
            subs.push(last);
            let m = Message { version: (2, 1), vendor: [1, 3], prefix: c.rng.arr(), subs };
            let s2 = gen_sub_kind(&mut c.rng, GAP, &OPTS);
            let m2 = Message { version: (1, 9), vendor: [7, 8], prefix: c.rng.arr(), subs: vec![s2] };
            let k = gen_kind(&mut c.rng);
            let s = [m, m2];
            check_messages(c, &s, k, false, true)?;
            check_stepwise(c, &s, k)?;
        }
        Ok(())
    });
    // the context after damaged input, as far as the reference can follow
    x.cases("damaged", 30_000, |c| {
        let n = c.rng.range(1, 8);
        let m = gen_message(&mut c.rng, &o, n, false);
        let mut b = m.bytes();
        mutate(&mut c.rng, &mut b);
        b.splice(0..20.min(b.len()), header_bytes((2, 1), [1, 3], [5; 12]));
        differential(c, &b, 1, false)
    });
    x.require("contexts_compared", 1000);
}

/// Runs arbitrary bytes through receiver and reference side by side, up to
/// where the reference cannot say what follows (a rejected header, DATA).
pub fn differential(c: &mut Case, b: &[u8], kind: i32, check_items: bool) -> Verdict {
    let mut rx = Recv::new(kind);
    let mut rf = Ref::new(kind);
    // how far is the outcome defined?
    let mut p = 0;
    let mut exp: Vec<(Option<Item>, Context)> = vec![];
    loop {
        match rf.step(&b[p..]) {
            Step::NeedMore | Step::Data | Step::BadHeader(_) => break,
            Step::Silent(n) => p += n,
            Step::Item(n, i) => {
                p += n;
                exp.push((Some(i), rf.ctx.clone()));
            }
            Step::BadSub(n) => {
                p += n;
                exp.push((None, rf.ctx.clone()));
            }
        }
    }
    rx.feed(&b[..p]);
    for (n, (e, ctx)) in exp.iter().enumerate() {
        let o = rx.next();
        match (&o, e) {
            (Out::Item(i), Some(e)) => {
                c.count("items", 1);
                ensure!(!check_items || i == e, "outcome {n}: expected {e:?}, got {i:?}; input {}", hex(&b[..p]));
            }
            (Out::Err(_), None) => c.count("malformed_reported", 1),
            _ => return bad(format!("outcome {n}: expected {}, got {o:?}; input {}", e.as_ref().map_or("an error".into(), |e| format!("{e:?}")), hex(&b[..p]))),
        }
        if let Some(d) = ctx.diff(&rx.ctx()) {
            return bad(format!("context after outcome {n}: {d}; input {}", hex(&b[..p])));
        }
        c.count("contexts_compared", 1);
    }
    let o = rx.next();
    ensure!(o == Out::None, "after {} outcomes the input is used up, but decode gave {o:?}; input {}", exp.len(), hex(&b[..p]));
    if let Some(d) = rf.ctx.diff(&rx.ctx()) {
        return bad(format!("final context: {d}; input {}", hex(&b[..p])));
    }
    ensure!(rx.buf.is_empty(), "{} bytes were left over; input {}", rx.buf.len(), hex(&b[..p]));
    if p > 20 {
        c.nontrivial(b);
    }
    Ok(())
}

// ------------------------------------------------------------------- C04

/// A stream whose submessages declare their lengths, partly malformed.
fn gen_stream(r: &mut Rng) -> Vec<u8> {
    let n = gen_count(r);
    let big = r.chance(1, 40);
    let m = gen_message(r, &Opts { big, wild_ports: true, ..OPTS }, n, false);
    let mut b = header_bytes(m.version, m.vendor, m.prefix);
    for s in &m.subs {
        let mut s = s.clone();
        if r.chance(1, 10) && s.need > 1 && known_kind(s.kind) {
            s.body.truncate(r.range(1, s.need - 1));
        }
        b.extend(s.bytes());
    }
    b
}

fn one_shot(b: &[u8], kind: i32) -> Vec<(Out, Context)> {
    let mut rx = Recv::new(kind);
    rx.feed(b);
    let mut v = vec![];
    for _ in 0..b.len() + 2 {
        let o = rx.next();
        let end = o == Out::None;
        v.push((o, rx.ctx()));
        if end {
            break;
        }
    }
    v
}
fn same_ctx(a: &Context, b: &Context) -> bool {
    a == b
}

fn check_chunked(c: &mut Case, b: &[u8], chunks: &[usize], kind: i32, whole: &[(Out, Context)]) -> Verdict {
    let mut rx = Recv::new(kind);
    let mut rf = Ref::new(kind);
    let mut done = 0; // bytes the reference has taken
    let mut fed = 0;
    let mut n = 0; // outcomes so far
    for k in chunks {
        rx.feed(&b[fed..fed + k]);
        fed += k;
        // what must come out now
        loop {
            let st = rf.step(&b[done..fed]);
            let (len, want_item) = match st {
                Step::NeedMore => break,
                Step::Silent(len) => {
                    done += len;
                    continue;
                }
                Step::Item(len, _) => (len, true),
                Step::BadSub(len) => (len, false),
                Step::BadHeader(_) | Step::Data => unreachable!(),
            };
            done += len;
            let o = rx.next();
            let ok = matches!((&o, want_item), (Out::Item(_), true) | (Out::Err(_), false));
            ensure!(
                ok,
                "after {fed} bytes a complete submessage ends at byte {done}, but decode gave {o:?} instead of {}; chunks {:?}; stream {}",
                if want_item { "an item" } else { "an error" },
                short(chunks),
                hex(b)
            );
            ensure!(n < whole.len() && whole[n].0 == o, "outcome {n} depends on the chunks: {o:?}, but in one piece {:?}; chunks {:?}; stream {}", whole.get(n).map(|x| &x.0), short(chunks), hex(b));
            let cx = rx.ctx();
            ensure!(same_ctx(&whole[n].1, &cx), "context at outcome {n} depends on the chunks: {:?}; chunks {:?}; stream {}", whole[n].1.diff(&cx), short(chunks), hex(b));
            n += 1;
            c.count("outcomes", 1);
        }
        let o = rx.next();
        ensure!(o == Out::None, "the next submessage is incomplete ({fed} bytes fed, it starts at {done}), but decode gave {o:?}; chunks {:?}; stream {}", short(chunks), hex(b));
        ensure!(rx.buf.len() == fed - done, "an incomplete header or submessage must not be consumed: {} bytes buffered, {} expected; chunks {:?}; stream {}", rx.buf.len(), fed - done, short(chunks), hex(b));
        ensure!(rx.buf[..] == b[done..fed], "the bytes waiting for the rest of a submessage were altered; chunks {:?}; stream {}", short(chunks), hex(b));
        let cx = rx.ctx();
        if let Some(d) = rf.ctx.diff(&cx) {
            return bad(format!("context with {fed} bytes fed: {d}; chunks {:?}; stream {}", short(chunks), hex(b)));
        }
        // asking again changes nothing
        let o = rx.next();
        ensure!(o == Out::None && rx.buf.len() == fed - done && rx.ctx() == cx, "asking again without new bytes changed something: {o:?}; chunks {:?}; stream {}", short(chunks), hex(b));
        c.count("waits", 1);
    }
    ensure!(n + 1 == whole.len(), "{n} outcomes in chunks {:?}, {} in one piece; stream {}", short(chunks), whole.len() - 1, hex(b));
    Ok(())
}
fn short(c: &[usize]) -> &[usize] {
    &c[..c.len().min(60)]
}

pub struct Feed {
    data: Vec<u8>,
    pos: usize,
    chunks: Vec<usize>,
    /// whether to report "not ready" before each chunk
    pending: Vec<bool>,
    at: usize,
    waited: bool,
}
impl Feed {
    pub fn new(b: &[u8], chunks: &[usize]) -> Feed {
        Feed { data: b.to_vec(), pos: 0, chunks: chunks.to_vec(), pending: chunks.iter().map(|_| false).collect(), at: 0, waited: false }
    }
}
impl tokio::io::AsyncRead for Feed {
    fn poll_read(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>, b: &mut tokio::io::ReadBuf<'_>) -> std::task::Poll<std::io::Result<()>> {
        let s = &mut *self;
        if s.at >= s.chunks.len() {
            return std::task::Poll::Ready(Ok(()));
        }
        if s.pending[s.at] && !s.waited {
            s.waited = true;
            return std::task::Poll::Pending;
        }
        s.waited = false;
        let n = s.chunks[s.at].min(b.remaining());
        b.put_slice(&s.data[s.pos..s.pos + n]);
        s.pos += n;
        s.chunks[s.at] -= n;
        if s.chunks[s.at] == 0 {
            s.at += 1;
        }
        std::task::Poll::Ready(Ok(()))
    }
}

fn check_framed(c: &mut Case, b: &[u8], chunks: &[usize], kind: i32, whole: &[(Out, Context)]) -> Verdict {
    use futures_core::Stream;
    use std::pin::Pin;
    use std::task::{Context as Cx, Poll, Waker};
    let pending = chunks.iter().map(|_| c.rng.chance(1, 3)).collect();
    let feed = Feed { data: b.to_vec(), pos: 0, chunks: chunks.to_vec(), pending, at: 0, waited: false };
    let mut fr = tokio_util::codec::FramedRead::with_capacity(feed, v::MessageReceiver::new(mk_kind(kind)), 1 + c.rng.usize(300));
    let mut cx = Cx::from_waker(Waker::noop());
    let mut n = 0;
    let mut polls = 0;
    loop {
        polls += 1;
        ensure!(polls < 4 * (b.len() + chunks.len()) + 100, "the framed reader makes no progress; chunks {:?}; stream {}", short(chunks), hex(b));
        match Pin::new(&mut fr).poll_next(&mut cx) {
            Poll::Pending => c.count("framed_pending", 1),
            Poll::Ready(None) => {
                ensure!(whole[n].0 == Out::None, "the framed reader ended after {n} outcomes, but {:?} comes next; chunks {:?}; stream {}", whole[n].0, short(chunks), hex(b));
                break;
            }
            Poll::Ready(Some(Ok(i))) => {
                let o = Out::Item(item(i));
                ensure!(whole[n].0 == o, "framed outcome {n} is {o:?}, but in one piece {:?}; chunks {:?}; stream {}", whole[n].0, short(chunks), hex(b));
                let cx = context(fr.decoder());
                ensure!(cx == whole[n].1, "context at framed outcome {n}: {:?}; chunks {:?}; stream {}", whole[n].1.diff(&cx), short(chunks), hex(b));
                c.count("framed_items", 1);
                n += 1;
            }
            Poll::Ready(Some(Err(e))) => {
                ensure!(whole[n].0 == Out::Err(e.kind()), "framed outcome {n} is error {e}, but in one piece {:?}; chunks {:?}; stream {}", whole[n].0, short(chunks), hex(b));
                c.count("framed_errors", 1);
                return Ok(()); // a framed reader stops at the first error
            }
        }
    }
    let cx = context(fr.decoder());
    ensure!(cx == whole[n].1, "final context of the framed reader: {:?}; stream {}", whole[n].1.diff(&cx), hex(b));
    Ok(())
}

pub fn c04(x: &Ctx) {
    x.cases("chunks", 30_000, |c| {
        let b = gen_stream(&mut c.rng);
        let k = gen_kind(&mut c.rng);
        let whole = one_shot(&b, k);
        let chunks = gen_chunks(&mut c.rng, b.len());
        c.sample(|| format!("{} bytes in chunks {:?}", b.len(), short(&chunks)));
        check_chunked(c, &b, &chunks, k, &whole)?;
        check_framed(c, &b, &chunks, k, &whole)?;
        let mut sig = b.clone();
        sig.extend(chunks.iter().map(|x| *x as u8));
        if chunks.len() > 1 {
            c.nontrivial(&sig);
        }
        Ok(())
    });
    // more calls than small counters hold
    x.cases("marathon", 2, |c| {
        let most = if x.scale < 100 || x.guided.is_some() { 600 } else { 140_000 };
        let k = gen_kind(&mut c.rng);
        let (b, chunks): (Vec<u8>, Vec<usize>) = if c.idx % 3 == 2 {
            // one submessage as large as can be, byte by byte
            let mut b = header_bytes((2, 1), [1, 2], [3; 12]);
            let n = most.min(65535);
            let body = c.rng.bytes(n);
            b.extend(frame(*c.rng.pick(&[PAD, 0x80, 0x77]), 1, n as u16, &body));
            b.extend(gen_sub_kind(&mut c.rng, ACKNACK, &OPTS).bytes());
            let l = b.len();
            (b, vec![1; l])
        } else {
            let mut b = if c.idx % 3 == 0 { header_bytes((2, 1), [1, 2], [3; 12]) } else { gen_stream(&mut c.rng) };
            while b.len() < most {
                let more = gen_message(&mut c.rng, &OPTS, 20, false);
                b.extend(more.subs.iter().flat_map(|s| s.bytes()));
            }
            let step = if c.idx % 3 == 0 { 1 } else { c.rng.range(1, 3) };
            let mut ch = vec![step; b.len() / step];
            if b.len() % step > 0 {
                ch.push(b.len() % step);
            }
            (b, ch)
        };
        let whole = one_shot(&b, k);
        check_chunked(c, &b, &chunks, k, &whole)?;
        check_framed(c, &b, &chunks, k, &whole)?;
        c.count("long_streams", 1);
        c.nontrivial(&b);
        Ok(())
    });
    // much at once: nothing may depend on how much is waiting in the buffer
    x.cases("large", 6, |c| {
        let most = if x.scale < 100 || x.guided.is_some() { 600 } else { *c.rng.pick(&[70_000, 300_000, 1_100_000, 2_200_000, 4_300_000]) };
        let k = gen_kind(&mut c.rng);
        let mut b = gen_stream(&mut c.rng);
        while b.len() < most {
            let n = 20 + c.rng.usize(100);
            let big = c.rng.chance(1, 3);
            let more = gen_message(&mut c.rng, &Opts { big, ..OPTS }, n, false);
            b.extend(more.subs.iter().flat_map(|s| s.bytes()));
        }
        // (an end in the middle of a submessage is an error for the framed reader alone)
        let cut_off = c.rng.bool() && b.len() > most;
        if cut_off {
            b.truncate(most);
        }
        let whole = one_shot(&b, k);
        // in one piece, in a few pieces, and with one piece after another kept waiting
        for cut in 0..3 {
            let mut chunks = vec![];
            let mut left = b.len();
            while left > 0 {
                let n = match cut {
                    0 => left,
                    1 => c.rng.range(1, left),
                    _ => (1usize << c.rng.range(8, 21)).min(left),
                };
                chunks.push(n);
                left -= n;
            }
            check_chunked(c, &b, &chunks, k, &whole)?;
            if !cut_off {
                check_framed(c, &b, &chunks, k, &whole)?;
            }
        }
        c.count("bytes_waiting", b.len() as u64);
        c.nontrivial(&b[..most.min(4096)]);
        Ok(())
    });
    // all ways to cut a stream in two or three
    x.sweep("cuts", 120, |c| {
        let n = c.rng.range(1, 4);
        let m = gen_message(&mut c.rng, &OPTS, n, false);
        let b = m.bytes();
        let b = &b[..b.len().min(260)];
        let k = gen_kind(&mut c.rng);
        let whole = one_shot(b, k);
        let step = if c.idx % 4 == 0 { 7 } else { b.len() };
        for i in 1..b.len() {
            let mut j = i;
            loop {
                let ch: Vec<usize> = if j == i { vec![i, b.len() - i] } else { vec![i, j - i, b.len() - j] };
                check_chunked(c, b, &ch, k, &whole)?;
                check_framed_if_complete(c, b, &ch, k, &whole, &m)?;
                c.count("cuts", 1);
                j += step;
                if j >= b.len() {
                    break;
                }
            }
        }
        c.nontrivial(b);
        Ok(())
    });
    // a rejected header: chunking must not change anything either
    x.cases("badheader", 4_000, |c| {
        let mut b = header_bytes((c.rng.u8(), 1), [0, 0], [1; 12]);
        if c.rng.bool() {
            let i = c.rng.usize(4);
            b[i] ^= 1 << c.rng.below(8);
        }
        let n = c.rng.range(0, 3);
        b.extend(gen_message(&mut c.rng, &OPTS, n, false).bytes());
        let whole = one_shot(&b, 1);
        let chunks = gen_chunks(&mut c.rng, b.len());
        let mut rx = Recv::new(1);
        let mut fed = 0;
        let mut got = vec![];
        let mut ctxs = vec![];
        for k in &chunks {
            rx.feed(&b[fed..fed + k]);
            fed += k;
            loop {
                let o = rx.next();
                if o == Out::None {
                    break;
                }
                got.push(o);
                ctxs.push(rx.ctx());
                ensure!(got.len() < 1000, "endless outcomes");
            }
        }
        let w: Vec<Out> = whole[..whole.len() - 1].iter().map(|x| x.0.clone()).collect();
        // zero-length final submessages depend on where the message ends
        let safe = {
            let mut rf = Ref::new(1);
            let mut p = 0;
            loop {
                match rf.step(&b[p..]) {
                    Step::Silent(n) | Step::Item(n, _) | Step::BadSub(n) if rf.in_message => p += n,
                    Step::BadHeader(n) => p += n,
                    Step::NeedMore => break true,
                    _ => break false,
                }
            }
        };
        if safe {
            ensure!(got == w, "outcomes depend on the chunks: {got:?} in {:?}, {w:?} in one piece; stream {}", short(&chunks), hex(&b));
            ensure!(ctxs.iter().zip(&whole).all(|(a, w)| *a == w.1), "contexts depend on the chunks {:?}; stream {}", short(&chunks), hex(&b));
            c.count("rejected_header_streams", 1);
            c.nontrivial(&b);
        }
        Ok(())
    });
    x.require("waits", 1000);
    x.require("framed_items", 1000);
    x.require("framed_pending", 100);
}
fn check_framed_if_complete(c: &mut Case, b: &[u8], ch: &[usize], k: i32, whole: &[(Out, Context)], m: &Message) -> Verdict {
    if b.len() == m.bytes().len() {
        check_framed(c, b, ch, k, whole)?;
    }
    Ok(())
}

// ------------------------------------------------------------------- C05

/// Decodes `pre ++ skipped ++ post` and compares with what `pre ++ post`
/// means.
fn check_skip(c: &mut Case, pre: &Message, skipped: &[Sub], post: &[Sub], kind: i32) -> Verdict {
    let mut m = pre.clone();
    m.subs.extend(skipped.iter().cloned());
    m.subs.extend(post.iter().cloned());
    check_messages(c, &[m.clone()], kind, true, true)?;
    // the step-by-step view: bytes consumed and nothing else happening
    let mut rx = Recv::new(kind);
    rx.feed(&pre.bytes());
    rx.drain();
    let ctx = rx.ctx();
    let mut neutral = true;
    for s in skipped {
        let sb = s.bytes();
        rx.feed(&sb);
        let o = rx.next();
        match &s.eff {
            Eff::Nothing => {
                ensure!(o == Out::None, "skipping {s:?} gave {o:?}");
                if neutral {
                    ensure!(rx.ctx() == ctx, "skipping {:#04x} with {} bytes changed the context: {:?}", s.kind, s.body.len(), ctx.diff(&rx.ctx()));
                }
            }
            Eff::Deliver(_) => {}
            _ => neutral = false,
        }
        rx.drain();
        ensure!(rx.buf.is_empty(), "{} of {} bytes of {:#04x} (flags {:#04x}, {} body bytes) were left unread", rx.buf.len(), sb.len(), s.kind, s.flags, s.body.len());
        c.count("regions_skipped", 1);
    }
    c.nontrivial(&[&m.bytes()[20..], &[kind as u8]].concat());
    Ok(())
}
fn base_message(r: &mut Rng) -> Message {
    let n = r.range(0, 3);
    gen_message(r, &Opts { unknown: false, surplus: false, ..OPTS }, n, false)
}
fn post_subs(r: &mut Rng) -> Vec<Sub> {
    let mut v: Vec<Sub> = (0..r.range(0, 2)).map(|_| gen_sub(r, &Opts { surplus: false, unknown: false, ..OPTS })).collect();
    let k = *r.pick(&ENTITY_KINDS);
    v.push(gen_sub_kind(r, k, &OPTS));
    v
}

pub fn c05(x: &Ctx) {
    x.cases("marathon", 2, |c| marathon(x, c, true, true));
    // every kind that carries nothing the receiver understands
    x.sweep("kinds", 256, |c| {
        let kind = c.idx as u8;
        let skippable = kind == PAD || !known_kind(kind);
        for rep in 0..24 {
            if !skippable {
                break;
            }
            let len = match rep {
                0 => 0,
                1 => 1,
                2 => 65535,
                3..=12 => rep - 1,
                _ => c.rng.range(1, 300),
            };
            let flags = gen_flags(&mut c.rng);
            let flags = if rep % 2 == 0 { flags | 1 } else { flags & !1 };
            if len == 0 && kind != PAD {
                continue;
            }
            let s = Sub { kind, flags, need: 0, body: c.rng.bytes(len), last: false, eff: Eff::Nothing };
            let pre = base_message(&mut c.rng);
            let post = post_subs(&mut c.rng);
            check_skip(c, &pre, &[s], &post, 1)?;
        }
        Ok(())
    });
    // every declared length, for a padding, an unknown kind and an INFO_TS
    // without timestamp
    x.sweep("lengths", 65536, |c| {
        let len = c.idx as usize;
        if x.scale >= 100 && !x.thorough && len > 2100 && (len * 2654435761 >> 5) % 16 != 0 && len < 65500 {
            return Ok(()); // the quick run samples long lengths
        }
        let which = c.rng.below(3);
        for w in 0..3 {
            if len > 600 && w != which {
                continue;
            }
            let f = gen_flags(&mut c.rng);
            let (kind, flags) = match w {
                0 => (PAD, f),
                1 => (gen_unknown_kind(&mut c.rng), f),
                _ => (INFO_TS, f | 2),
            };
            if len == 0 && w == 1 {
                continue;
            }
            let mut body = vec![0u8; len];
            for (i, b) in body.iter_mut().enumerate() {
                *b = (i as u8).wrapping_mul(7) ^ c.idx as u8;
            }
            let eff = if w == 2 { Eff::Ts(None) } else { Eff::Nothing };
            let s = Sub { kind, flags, need: 0, body, last: false, eff };
            let pre = base_message(&mut c.rng);
            let post = post_subs(&mut c.rng);
            check_skip(c, &pre, &[s], &post, 1)?;
        }
        Ok(())
    });
    // several skipped regions in a row, whose bytes look like submessages;
    // changing those bytes changes nothing
    x.cases("junk", 25_000, |c| {
        let pre = base_message(&mut c.rng);
        let post = post_subs(&mut c.rng);
        let n = c.rng.range(1, 5);
        let sk: Vec<Sub> = (0..n)
            .map(|_| {
                let kind = if c.rng.bool() { PAD } else { gen_unknown_kind(&mut c.rng) };
                gen_sub_kind(&mut c.rng, kind, &Opts { big: true, ..OPTS })
            })
            .collect();
        c.sample(|| format!("{} + skipped {:?} + {} more", pre.describe(), sk.iter().map(|s| (s.kind, s.body.len())).collect::<Vec<_>>(), post.len()));
        check_skip(c, &pre, &sk, &post, 1)?;
        let mut sk2 = sk.clone();
        for s in &mut sk2 {
            let n = s.body.len();
            s.body = c.rng.bytes(n);
        }
        check_skip(c, &pre, &sk2, &post, 1)
    });
    // surplus bytes after known contents
    x.cases("surplus", 25_000, |c| {
        let pre = base_message(&mut c.rng);
        let post = post_subs(&mut c.rng);
        let kind = if c.rng.bool() { *c.rng.pick(&ENTITY_KINDS) } else { *c.rng.pick(&INFO_KINDS) };
        let mut s = gen_sub_kind(&mut c.rng, kind, &Opts { surplus: false, ..OPTS });
        let room = 65535 - s.body.len();
        let n = match c.rng.below(5) {
            0 => 1,
            1 => c.rng.range(1, 4),
            2 => c.rng.range(1, 64),
            3 => c.rng.range(1, 2000),
            _ => 4 * c.rng.range(1, 8),
        };
        let mut junk = gen_junk(&mut c.rng, n.min(room), s.flags & 1 == 1);
        junk.truncate(room);
        c.count("surplus_bytes", junk.len() as u64);
        s.body.extend(junk);
        check_skip(c, &pre, &[s], &post, 1)
    });
    // a length of zero: last submessage of the message, for every kind
    x.sweep("last", 256 * 12, |c| {
        let kind = (c.idx / 12) as u8;
        if kind == PAD || kind == INFO_TS || kind == DATA || kind == DATA_FRAG {
            return Ok(());
        }
        let mut s = gen_sub_kind(&mut c.rng, kind, &OPTS);
        if !known_kind(kind) {
            let n = *c.rng.pick(&[0, 1, 3, 20, 24, 100, 70_000]);
            s.body = if c.rng.bool() { c.rng.bytes(n) } else { header_bytes((2, 1), [1, 2], [3; 12]) };
        } else if c.rng.chance(1, 6) {
            // the rest of the message can exceed what a length field can say
            let n = c.rng.range(66_000, 80_000);
            let j = c.rng.bytes(n);
            s.body.extend(j);
        }
        s.last = true;
        let mut m = base_message(&mut c.rng);
        m.subs.push(s);
        let m2 = base_message(&mut c.rng);
        c.count("zero_length_last", 1);
        check_messages(c, &[m.clone(), m2.clone()], 1, true, true)?;
        // while a truncated last one is malformed, and still the last
        let need = m.subs.last().unwrap().need;
        if need > 0 {
            let mut m3 = m.clone();
            let cut = c.rng.usize(need);
            m3.subs.last_mut().unwrap().body.truncate(cut);
            let mut rx = Recv::new(1);
            rx.feed(&m3.bytes());
            let o = rx.drain();
            ensure!(matches!(o.last(), Some(Out::Err(_))), "a last submessage {:#04x} of {cut} instead of {need} bytes gave {:?}", kind, o.last());
            ensure!(rx.buf.is_empty(), "{} bytes were left after a malformed last submessage", rx.buf.len());
            rx.feed(&m2.bytes());
            let o = rx.drain();
            let (e, cx) = m2.meaning(1);
            ensure!(o.len() == e.len() && o.iter().zip(&e).all(|(o, e)| *o == Out::Item(e.0.clone())), "the message after a malformed last submessage was not understood: {o:?}");
            ensure!(cx.diff(&rx.ctx()).is_none(), "context of the message after a malformed last submessage: {:?}", cx.diff(&rx.ctx()));
        }
        Ok(())
    });
    // PAD and INFO_TS of length zero are not the last
    x.sweep("zero", 512, |c| {
        let flags = c.idx as u8;
        let kind = if c.idx < 256 { PAD } else { INFO_TS };
        let pre = base_message(&mut c.rng);
        let post = post_subs(&mut c.rng);
        if kind == INFO_TS && flags & 2 == 0 {
            // it lacks its timestamp: an error, but not the end
            let s = Sub { kind, flags, need: 8, body: vec![], last: false, eff: Eff::Nothing };
            let mut m = pre.clone();
            m.subs.push(s);
            m.subs.extend(post);
            return differential(c, &m.bytes(), 1, true);
        }
        let s = Sub { kind, flags, need: 0, body: vec![], last: false, eff: if kind == PAD { Eff::Nothing } else { Eff::Ts(None) } };
        c.count("zero_length_not_last", 1);
        check_skip(c, &pre, &[s], &post, 1)
    });
    x.require("regions_skipped", 1000);
    x.require("zero_length_last", 100);
}

// ------------------------------------------------------------------- C06

fn check_header(c: &mut Case, b: &[u8; 20], rx: &mut Recv) -> Verdict {
    let good = &b[..4] == b"RTPS" && b[4] <= 2;
    let before = rx.ctx();
    rx.feed(b);
    // an entity submessage right behind shows whether anything gets delivered
    let hb = frame(HEARTBEAT, 1, 28, &[3; 28]);
    if good {
        let o = rx.next();
        ensure!(o == Out::None, "a good header {} gave {o:?}", hex(b));
        let want = Context { version: (b[4], b[5]), vendor: [b[6], b[7]], prefix: b[8..].try_into().unwrap(), ..Context::initial(1) };
        let got = rx.ctx();
        ensure!(
            got.version == want.version && got.vendor == want.vendor && got.prefix == want.prefix,
            "source after header {}: {:?}",
            hex(b),
            want.diff(&got)
        );
        ensure!(rx.buf.is_empty(), "a header is 20 bytes, {} were left", rx.buf.len());
        rx.feed(&hb);
        let o = rx.next();
        ensure!(matches!(o, Out::Item(Item::Heartbeat { .. })), "after good header {} a heartbeat gave {o:?}", hex(b));
        c.count("headers_accepted", 1);
    } else {
        let o = rx.next();
        ensure!(o == Out::Err(ErrorKind::InvalidData), "a bad header {} gave {o:?} instead of an invalid-data error", hex(b));
        ensure!(rx.ctx() == before, "a bad header {} changed the context: {:?}", hex(b), before.diff(&rx.ctx()));
        rx.buf.clear();
        rx.feed(&hb);
        let o = rx.next();
        ensure!(!matches!(o, Out::Item(_)), "after bad header {} a heartbeat was delivered", hex(b));
        c.count("headers_rejected", 1);
    }
    c.nontrivial(b);
    Ok(())
}
/// a receiver that has just handled a message with a rich context
fn used_receiver(r: &mut Rng) -> Recv {
    let n = r.range(1, 6);
    let m = gen_message(r, &Opts { entity: 20, ..OPTS }, n, true);
    let mut rx = Recv::new(1);
    rx.feed(&m.bytes());
    rx.drain();
    rx.buf.clear();
    rx
}
pub fn c06(x: &Ctx) {
    x.cases("marathon", 2, |c| marathon(x, c, false, true));
    x.sweep("versions", 256, |c| {
        for minor in 0..=255u8 {
            let mut b = [0u8; 20];
            b[..4].copy_from_slice(b"RTPS");
            b[4] = c.idx as u8;
            b[5] = minor;
            b[6..8].copy_from_slice(&c.rng.arr::<2>());
            b[8..].copy_from_slice(&c.rng.arr::<12>());
            let mut rx = if minor % 8 == 0 { used_receiver(&mut c.rng) } else { Recv::new(1) };
            check_header(c, &b, &mut rx)?;
        }
        Ok(())
    });
    x.sweep("ids", 4 * 256, |c| {
        let mut b = [0u8; 20];
        b[..4].copy_from_slice(b"RTPS");
        b[(c.idx / 256) as usize] = c.idx as u8;
        b[4] = c.rng.below(4) as u8;
        b[5] = c.rng.u8();
        let mut rx = if c.idx % 8 == 0 { used_receiver(&mut c.rng) } else { Recv::new(1) };
        check_header(c, &b, &mut rx)
    });
    x.cases("words", 4_000, |c| {
        let mut b = [0u8; 20];
        b[..4].copy_from_slice(*c.rng.pick(&[b"RTPS", b"RTPX", b"rtps", b"SPTR", b"RTSP", b"RPTS", b"TRPS", b"GIOP", b"RTP\0", b"\0\0\0\0", b"RRRR", b"SSSS"]));
        if c.rng.chance(1, 4) {
            b[..4].copy_from_slice(&c.rng.arr::<4>());
        }
        b[4] = *c.rng.pick(&[0, 1, 2, 2, 2, 3, 128, 255]);
        let rest: [u8; 15] = c.rng.arr();
        b[5..].copy_from_slice(&rest);
        c.sample(|| hex(&b));
        let mut rx = if c.rng.bool() { used_receiver(&mut c.rng) } else { Recv::new(1) };
        check_header(c, &b, &mut rx)
    });
    // the version and vendor fields at work: nothing but the major version
    // and the id decides
    x.cases("fields", 20_000, |c| {
        let mut b = [0u8; 20];
        b[..4].copy_from_slice(b"RTPS");
        b[4] = c.rng.below(5) as u8;
        for i in 5..20 {
            b[i] = *c.rng.pick(&[0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xff, b'R', b'T', b'P', b'S']);
        }
        let mut rx = if c.rng.chance(1, 4) { used_receiver(&mut c.rng) } else { Recv::new(1) };
        check_header(c, &b, &mut rx)
    });
    x.sweep("vendors", 65536, |c| {
        let mut b = [0u8; 20];
        b[..4].copy_from_slice(b"RTPS");
        b[4] = 2;
        b[5] = 1;
        b[6] = (c.idx >> 8) as u8;
        b[7] = c.idx as u8;
        check_header(c, &b, &mut Recv::new(1))
    });
    // the Validity predicates say the same
    x.sweep("predicate", 256, |c| {
        use v::Validity;
        for minor in 0..=255u8 {
            let mut b = header_bytes((c.idx as u8, minor), [1, 2], [3; 12]);
            if minor % 5 == 0 {
                let i = c.rng.usize(4);
                b[i] = b[i].wrapping_add(1 + c.rng.u8() % 255);
            }
            let h: v::Header = read(true, &b);
            let good = &b[..4] == b"RTPS" && b[4] <= 2;
            ensure!(h.valid() == good, "validity of header {} is {}", hex(&b), h.valid());
            ensure!(h.protocol_id.valid() == (&b[..4] == b"RTPS"), "validity of protocol id {} is {}", hex(&b[..4]), h.protocol_id.valid());
            c.count("predicates", 1);
        }
        Ok(())
    });
    x.require("headers_accepted", 100);
    x.require("headers_rejected", 100);
}

// ------------------------------------------------------------------- C07

/// `bad_sub` is malformed: an error, no effect, and `post` is unharmed.
fn check_malformed(c: &mut Case, pre: &Message, kind: u8, flags: u8, body: &[u8], post: &[Sub], why: &str) -> Verdict {
    let mut rx = Recv::new(1);
    rx.feed(&pre.bytes());
    rx.drain();
    let before = rx.ctx();
    let fr = frame(kind, flags, body.len() as u16, body);
    rx.feed(&fr);
    let mut tail = vec![];
    for s in post {
        tail.extend(s.bytes());
    }
    rx.feed(&tail);
    let o = rx.next();
    let ctxd = || format!("{} ({:#04x}, flags {flags:#04x}) {why}: body {}", kind_name(kind), kind, hex(body));
    ensure!(matches!(o, Out::Err(_)), "{} gave {o:?} instead of an error; next submessages {}", ctxd(), hex(&tail));
    ensure!(rx.ctx() == before, "{} changed the context: {:?}", ctxd(), before.diff(&rx.ctx()));
    ensure!(rx.buf.len() == tail.len(), "{} took {} bytes too {}", ctxd(), rx.buf.len().abs_diff(tail.len()), if rx.buf.len() < tail.len() { "many" } else { "few" });
    let mut cx = before;
    for s in post {
        apply(&mut cx, &s.eff);
        if let Eff::Deliver(i) = &s.eff {
            let o = rx.next();
            ensure!(o == Out::Item(i.clone()), "after {} the next submessage {i:?} gave {o:?}", ctxd());
        }
    }
    let o = rx.next();
    ensure!(o == Out::None, "after {} and the rest decode gave {o:?}", ctxd());
    if let Some(d) = cx.diff(&rx.ctx()) {
        return bad(format!("context after {} and the rest: {d}", ctxd()));
    }
    c.count("malformed_reported", 1);
    let mut sig = vec![kind, flags];
    sig.extend(body);
    c.nontrivial(&sig);
    Ok(())
}
fn rich_message(r: &mut Rng) -> Message {
    let n = r.range(0, 5);
    gen_message(r, &Opts { entity: 20, ..OPTS }, n, false)
}
pub fn c07(x: &Ctx) {
    x.cases("marathon", 2, |c| marathon(x, c, true, true));
    let kinds: Vec<u8> = ENTITY_KINDS.iter().chain(&INFO_KINDS).copied().collect();
    // every too short declared length of every kind
    x.sweep("short", 10 * 120, |c| {
        let kind = kinds[(c.idx / 120) as usize];
        let s = loop {
            let s = gen_sub_kind(&mut c.rng, kind, &Opts { surplus: false, ..OPTS });
            if s.need > 0 {
                break s;
            }
        };
        // a length of zero would mean something else (but not for INFO_TS)
        let lo = if kind == INFO_TS { 0 } else { 1 };
        for len in lo..s.need {
            let pre = rich_message(&mut c.rng);
            let post = post_subs(&mut c.rng);
            check_malformed(c, &pre, kind, s.flags, &s.body[..len], &post, &format!("of {len} instead of {} bytes", s.need))?;
        }
        Ok(())
    });
    // number sets claiming too many bits
    x.cases("bits", 12_000, |c| {
        let kind = *c.rng.pick(&[ACKNACK, GAP, NACK_FRAG]);
        let flags = c.rng.u8();
        let n = match c.rng.below(6) {
            0 => 257,
            1 => c.rng.range(257, 300) as u32,
            2 => u32::MAX - c.rng.below(40) as u32,
            3 => *c.rng.pick(&[288, 512, 1024, 4096, 65536, 1 << 31, u32::MAX]),
            _ => (c.rng.u32v()).max(257),
        };
        let mut e = Enc::new(flags & 1 == 1);
        let ids: [u8; 8] = c.rng.arr();
        e.raw(&ids).sn(5);
        match kind {
            GAP => {
                e.sn(9);
            }
            NACK_FRAG => {
                e.u32(9);
            }
            _ => {}
        }
        e.u32(n);
        // bytes enough for the claim, for what 256 bits would need, or few
        let k = match c.rng.below(3) {
            0 => (n as usize).div_ceil(32).min(2000) * 4 + 4,
            1 => 36,
            _ => c.rng.range(0, 60),
        };
        let t = c.rng.bytes(k);
        e.raw(&t);
        let pre = rich_message(&mut c.rng);
        let post = post_subs(&mut c.rng);
        c.count("excess_bits", 1);
        check_malformed(c, &pre, kind, flags, &e.b, &post, &format!("claiming {n} bits"))
    });
    // undefined locator kinds, anywhere in either list
    x.cases("locators", 12_000, |c| {
        let flags = c.rng.u8() | 2 * c.rng.below(2) as u8;
        let mk = |c: &mut Case, lo: usize| -> Vec<Loc> { (0..c.rng.range(lo, 4)).map(|_| gen_loc(&mut c.rng)).collect() };
        let mut uni = mk(c, 0);
        let mut multi = if flags & 2 != 0 { mk(c, 0) } else { vec![] };
        if uni.len() + multi.len() == 0 {
            uni.push(gen_loc(&mut c.rng));
        }
        let n = uni.len();
        let at = c.rng.usize(n + multi.len());
        let l = if at < n { &mut uni[at] } else { &mut multi[at - n] };
        l.kind = loop {
            let k = match c.rng.below(3) {
                0 => *c.rng.pick(&[3, 4, -2, 0x0100_0000, 0x0200_0000, 16, 8, i32::MIN, i32::MAX]),
                _ => c.rng.i32v(),
            };
            if !(-1..=2).contains(&k) {
                break k;
            }
        };
        let mut e = Enc::new(flags & 1 == 1);
        e.locs(&uni);
        if flags & 2 != 0 {
            e.locs(&multi);
        }
        let pre = rich_message(&mut c.rng);
        let post = post_subs(&mut c.rng);
        c.count("undefined_kinds", 1);
        check_malformed(c, &pre, INFO_REPLY, flags, &e.b, &post, &format!("with an undefined locator kind at {at}"))
    });
    // locator counts that the body cannot hold; half-way failures
    x.cases("halfway", 16_000, |c| {
        let le = c.rng.bool();
        let pre = rich_message(&mut c.rng);
        let post = post_subs(&mut c.rng);
        let hi = c.rng.u8() & 0xf8;
        if c.rng.bool() {
            // the second locator of an IP4 reply is missing or incomplete
            let mut e = Enc::new(le);
            e.u32(c.rng.u32()).u32(c.rng.u16v() as u32);
            let k = c.rng.usize(8);
            let t = c.rng.bytes(k);
            e.raw(&t);
            c.count("halfway", 1);
            return check_malformed(c, &pre, INFO_REPLY_IP4, le as u8 | 2 | hi, &e.b, &post, "without a complete second locator");
        }
        let n = c.rng.range(0, 3);
        let uni: Vec<Loc> = (0..n).map(|_| gen_loc(&mut c.rng)).collect();
        let mut e = Enc::new(le);
        e.locs(&uni);
        let have = c.rng.range(0, 2);
        let multi: Vec<Loc> = (0..have).map(|_| gen_loc(&mut c.rng)).collect();
        let claim = match c.rng.below(4) {
            0 => have as u32 + 1,
            1 => u32::MAX,
            2 => *c.rng.pick(&[0x0aaa_aaab, 0x1000_0000, 0x8000_0000, 0xaaaa_aaab, 178_956_971]),
            _ => (have as u32 + 1).max(c.rng.u32v()),
        };
        e.u32(claim);
        for l in &multi {
            e.loc(l);
        }
        let k = c.rng.usize(24);
        let t = c.rng.bytes(k);
        e.raw(&t);
        c.count("halfway", 1);
        check_malformed(c, &pre, INFO_REPLY, le as u8 | 2 | hi, &e.b, &post, &format!("whose second list claims {claim} locators and holds {have}"))
    });
    // several malformed ones in a row, mixed with good ones
    x.cases("mixed", 12_000, |c| {
        let n = c.rng.range(2, 12);
        let mut b = header_bytes((2, 3), [9, 9], c.rng.arr());
        for _ in 0..n {
            let mut s = gen_sub(&mut c.rng, &Opts { entity: 40, ..OPTS });
            if c.rng.bool() && s.need > 1 {
                s.body.truncate(c.rng.range(1, s.need - 1));
            }
            b.extend(s.bytes());
        }
        c.sample(|| hex(&b));
        differential(c, &b, 1, true)
    });
    // whatever the damage, as the reference interpreter sees it
    x.cases("damaged", 40_000, |c| {
        let n = c.rng.range(1, 6);
        let m = gen_message(&mut c.rng, &OPTS, n, false);
        let mut b = m.bytes();
        mutate(&mut c.rng, &mut b);
        let h = header_bytes((2, 1), [1, 3], [5; 12]);
        let k = b.len().min(20);
        b.splice(0..k, h);
        differential(c, &b, 1, true)
    });
    x.require("malformed_reported", 1000);
    x.require("excess_bits", 100);
    x.require("undefined_kinds", 100);
    x.require("halfway", 100);
}

// ------------------------------------------------------------------- C24

pub fn c24(x: &Ctx) {
    x.sweep("bits", 256, |c| {
        let f = c.idx as u8;
        for mask in 0..=255u8 {
            let mut s = v::SubmessageFlag { flags: f };
            ensure!(s.is_flag_set(mask) == (f & mask != 0), "testing {mask:#04x} on {f:#04x} gave {}", s.is_flag_set(mask));
            s.set_flag(mask);
            ensure!(s.flags == f | mask, "setting {mask:#04x} on {f:#04x} gave {:#04x}", s.flags);
            let mut s = v::SubmessageFlag { flags: f };
            s.clear_flag(mask);
            ensure!(s.flags == f & !mask, "clearing {mask:#04x} on {f:#04x} gave {:#04x}", s.flags);
            c.count("flag_operations", 3);
        }
        // histories: bits not named never change
        let mut s = v::SubmessageFlag { flags: f };
        let mut model = f;
        for _ in 0..64 {
            let m = c.rng.u8();
            if c.rng.bool() {
                s.set_flag(m);
                model |= m;
            } else {
                s.clear_flag(m);
                model &= !m;
            }
            ensure!(s.flags == model, "after setting/clearing {m:#04x} flags are {:#04x}, expected {model:#04x}", s.flags);
        }
        let e = v::SubmessageFlag { flags: f }.endianness_flag();
        ensure!(e == end(f & 1 == 1), "byte order for flags {f:#04x} is {e:?}");
        c.nontrivial(&[f]);
        Ok(())
    });
    // headers: id x flags, a spread of lengths each; all lengths per byte order
    x.sweep("headers", 65536, |c| {
        let (id, flags) = ((c.idx >> 8) as u8, c.idx as u8);
        for t in 0..4 {
            let len = match t {
                0 => c.rng.u16v(),
                1 => (c.idx as u16).rotate_left(3),
                2 => *c.rng.pick(&[0u16, 1, 0xff, 0x100, 0x0102, 0xffff, 0x8000, 0x7fff, 0x00ff, 0xff00]),
                _ => c.rng.u64() as u16,
            };
            check_sub_header(c, id, flags, len)?;
        }
        c.nontrivial_u64(c.idx);
        Ok(())
    });
    x.sweep("lengths", 65536, |c| {
        for flags in [0u8, 1, 2, 3, 0x80, 0x81, 0xfe, 0xff] {
            check_sub_header(c, (c.idx >> 3) as u8, flags, c.idx as u16)?;
        }
        c.nontrivial_u64(1 << 40 | c.idx);
        Ok(())
    });
    // in the receiver: every kind, neighbours of the other order, all flag
    // bytes; the contents tell which order was used
    x.sweep("receiver", 11 * 256, |c| {
        let k = (c.idx / 256) as usize;
        let flags = c.idx as u8;
        let kind = if k < 5 { ENTITY_KINDS[k] } else if k < 10 { INFO_KINDS[k - 5] } else { PAD };
        let mut subs = vec![];
        for i in 0..5 {
            let s = if i == 2 {
                gen_sub_flags(&mut c.rng, kind, flags, &OPTS)
            } else {
                let k = if c.rng.bool() { *c.rng.pick(&ENTITY_KINDS) } else { *c.rng.pick(&INFO_KINDS) };
                let f = c.rng.u8() & !1 | ((flags & 1) ^ (i as u8 & 1) ^ 1);
                gen_sub_flags(&mut c.rng, k, f, &OPTS)
            };
            subs.push(s);
        }
        let m = Message { version: (2, 2), vendor: [1, 1], prefix: [6; 12], subs };
        c.count("mixed_order_messages", 1);
        check_messages(c, &[m.clone()], 1, true, true)?;
        check_stepwise(c, &[m], 1)
    });
    x.require("flag_operations", 3);
}
fn check_sub_header(c: &mut Case, id: u8, flags: u8, len: u16) -> Verdict {
    let le = flags & 1 == 1;
    let l = if le { len.to_le_bytes() } else { len.to_be_bytes() };
    let want = [id, flags, l[0], l[1]];
    for ctx in [false, true] {
        let h = match v::SubmessageHeader::read_from_buffer_with_ctx(end(ctx), &want) {
            Ok(h) => h,
            Err(e) => return bad(format!("submessage header {} unreadable: {e}", hex(&want))),
        };
        ensure!(h.submessage_length == len && h.flags.flags == flags, "submessage header {} (caller's order little endian: {ctx}) was read as {h:?}", hex(&want));
        let w = h.write_to_vec_with_ctx(end(ctx)).unwrap_or_default();
        ensure!(w == want, "submessage header {h:?} was written (caller's order little endian: {ctx}) as {}, expected {}", hex(&w), hex(&want));
        let mut b = BytesMut::new();
        b.extend_from_slice(&want);
        c.count("headers", 1);
    }
    Ok(())
}
