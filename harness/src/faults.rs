//! C27: the end of a byte stream. C28: faults of the buffers and streams that
//! values are read from and written to.
use crate::ensure;
use crate::real::*;
use crate::recv::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::spec::*;
use crate::wire::Wire;
use rtps_rs::verif_hooks as v;
use speedy::Writable;
use std::io::{Error, ErrorKind};
use tokio_util::codec::Decoder;

// ---------------------------------------------------------------- C27

/// What the complete headers and submessages of `b` give, and how many bytes
/// of an incomplete one follow.
fn expected(b: &[u8], kind: i32) -> Option<(Vec<(Option<Item>, Context)>, Context, usize)> {
    let mut rf = Ref::new(kind);
    let mut out = vec![];
    let mut at = 0;
    loop {
        match rf.step(&b[at..]) {
            Step::NeedMore => return Some((out, rf.ctx, b.len() - at)),
            Step::Silent(n) => at += n,
            Step::Item(n, i) => {
                at += n;
                out.push((Some(i), rf.ctx.clone()));
            }
            Step::BadHeader(n) | Step::BadSub(n) => {
                at += n;
                out.push((None, rf.ctx.clone()));
            }
            Step::Data => return None,
        }
    }
}

fn at_the_end(c: &mut Case, b: &[u8], kind: i32, chunks: &[usize]) -> Verdict {
    let Some((want, end, rest)) = expected(b, kind) else { return Ok(()) };
    c.note(|| format!("stream {} ends with {rest} bytes of something incomplete; chunks {:?}", hex(b), chunks.iter().take(40).collect::<Vec<_>>()));
    // decode as long as it gives something, then the end; or the end at once
    let direct = c.rng.bool();
    let mut rx = Recv::new(kind);
    let mut n = 0;
    if direct {
        rx.feed(b);
    } else {
        let mut at = 0;
        for k in chunks {
            rx.feed(&b[at..at + k]);
            at += k;
            loop {
                match rx.next() {
                    Out::None => break,
                    o => {
                        ensure!(n < want.len(), "more than the {} outcomes there are in {}: {o:?}", want.len(), hex(b));
                        same(c, b, n, &o, &rx.ctx(), &want[n])?;
                        n += 1;
                    }
                }
            }
        }
    }
    loop {
        let r = rx.m.decode_eof(&mut rx.buf);
        let cx = rx.ctx();
        if n < want.len() {
            let o = match r {
                Ok(Some(i)) => Out::Item(item(i)),
                Ok(None) => Out::None,
                Err(e) => Out::Err(e.kind()),
            };
            same(c, b, n, &o, &cx, &want[n])?;
            n += 1;
            continue;
        }
        ensure!(cx.diff(&end).is_none(), "context when {} has ended: {:?}", hex(b), end.diff(&cx));
        match (rest, r) {
            (0, Ok(None)) => c.count("ended_between_submessages", 1),
            (0, r) => return bad(format!("{} ends between submessages, but its end is reported as {:?}", hex(b), r.map(|i| i.map(item)))),
            (_, Err(_)) => {
                ensure!(rx.buf.len() == rest, "{} breaks off {rest} bytes into something, but {} bytes are left", hex(b), rx.buf.len());
                c.count("broke_off", 1);
                // and when asked once more
                let again = rx.m.decode_eof(&mut rx.buf);
                ensure!(again.is_err() && rx.buf.len() == rest, "{} breaks off {rest} bytes into something; asked again this gives {:?}", hex(b), again.map(|i| i.map(item)));
                ensure!(rx.ctx().diff(&end).is_none(), "context when the end of {} was reported twice: {:?}", hex(b), end.diff(&rx.ctx()));
            }
            (_, Ok(r)) => return bad(format!("{} breaks off {rest} bytes into something, but its end is reported as {:?}", hex(b), r.map(item))),
        }
        break;
    }
    framed_end(c, b, kind, chunks, &want, &end, rest)
}
fn same(c: &mut Case, b: &[u8], n: usize, o: &Out, cx: &Context, w: &(Option<Item>, Context)) -> Verdict {
    match (o, &w.0) {
        (Out::Item(i), Some(j)) => ensure!(i == j, "outcome {n} is {i:?}, expected {j:?}; stream {}", hex(b)),
        (Out::Err(_), None) => {}
        (o, w) => return bad(format!("outcome {n} is {o:?}, expected {}; stream {}", w.as_ref().map_or("an error".into(), |i| format!("{i:?}")), hex(b))),
    }
    let d = w.1.diff(cx);
    ensure!(d.is_none(), "context at outcome {n}: {d:?}; stream {}", hex(b));
    c.count("outcomes_before_the_end", 1);
    Ok(())
}
fn framed_end(c: &mut Case, b: &[u8], kind: i32, chunks: &[usize], want: &[(Option<Item>, Context)], end: &Context, rest: usize) -> Verdict {
    use futures_core::Stream;
    use std::task::{Context as Cx, Poll, Waker};
    let feed = Feed::new(b, chunks);
    let mut fr = tokio_util::codec::FramedRead::with_capacity(feed, v::MessageReceiver::new(mk_kind(kind)), 1 + c.rng.usize(300));
    let mut cx = Cx::from_waker(Waker::noop());
    let mut n = 0;
    for _ in 0..4 * (b.len() + chunks.len()) + 100 {
        match std::pin::Pin::new(&mut fr).poll_next(&mut cx) {
            Poll::Pending => {}
            Poll::Ready(None) => {
                ensure!(n == want.len() && rest == 0, "the framed reader ended without error after {n} of {} outcomes with {rest} bytes left of {}", want.len(), hex(b));
                let d = end.diff(&context(fr.decoder()));
                ensure!(d.is_none(), "context at the end of the framed {}: {d:?}", hex(b));
                c.count("framed_ended", 1);
                return Ok(());
            }
            Poll::Ready(Some(Ok(i))) => {
                ensure!(n < want.len(), "the framed reader gave {:?} after all {n} outcomes of {}", item(i), hex(b));
                let cx = context(fr.decoder());
                same(c, b, n, &Out::Item(item(i)), &cx, &want[n])?;
                n += 1;
            }
            Poll::Ready(Some(Err(e))) => {
                let cx = context(fr.decoder());
                if n < want.len() {
                    // it stops at the first error
                    return same(c, b, n, &Out::Err(e.kind()), &cx, &want[n]);
                }
                ensure!(rest > 0, "the framed reader reports {e} at the end of {}, which is complete", hex(b));
                let d = end.diff(&cx);
                ensure!(d.is_none(), "context when the framed {} broke off: {d:?}", hex(b));
                let next = std::pin::Pin::new(&mut fr).poll_next(&mut Cx::from_waker(Waker::noop()));
                ensure!(matches!(next, Poll::Ready(None)), "after the error at the end of {} the framed reader goes on", hex(b));
                c.count("framed_broke_off", 1);
                return Ok(());
            }
        }
    }
    bad(format!("the framed reader makes no progress; stream {}", hex(b)))
}

/// A message whose submessages all declare their lengths; some too short for
/// their contents.
fn gen_one(r: &mut Rng, most: usize) -> Vec<u8> {
    let n = r.range(0, most);
    let m = gen_message(r, &OPTS, n, false);
    let mut b = header_bytes(m.version, m.vendor, m.prefix);
    for s in &m.subs {
        let mut s = s.clone();
        if r.chance(1, 15) && s.need > 1 && known_kind(s.kind) {
            s.body.truncate(r.range(1, s.need - 1));
        }
        b.extend(s.bytes());
    }
    b
}

pub fn c27(x: &Ctx) {
    x.cases("any cut", 40_000, |c| {
        let b = gen_one(&mut c.rng, 10);
        let k = match c.rng.below(6) {
            0 => b.len(),
            1 => b.len() - c.rng.usize(b.len().min(8)),
            _ => c.rng.usize(b.len() + 1),
        };
        let b = &b[..k];
        let kind = gen_kind(&mut c.rng);
        let chunks = gen_chunks(&mut c.rng, b.len());
        at_the_end(c, b, kind, &chunks)?;
        c.nontrivial(b);
        c.sample(|| hex(b));
        Ok(())
    });
    x.cases("all cuts of a message", 600, |c| {
        let b = gen_one(&mut c.rng, 4);
        let kind = gen_kind(&mut c.rng);
        for k in 0..=b.len() {
            let chunks = if c.rng.bool() { vec![k] } else { gen_chunks(&mut c.rng, k) };
            at_the_end(c, &b[..k], kind, &chunks)?;
        }
        c.nontrivial(&b);
        Ok(())
    });
    // what takes long to arrive, and many in one
    x.cases("long", 400, |c| {
        let many = c.rng.bool();
        let n = if !many { c.rng.range(1, 5) } else if x.scale < 100 || x.guided.is_some() { 60 } else { c.rng.range(200, 3000) };
        let m = gen_message(&mut c.rng, &OPTS, n, false);
        let mut b = header_bytes(m.version, m.vendor, m.prefix);
        let mut at = 0;
        for s in &m.subs {
            let mut s = s.clone();
            if !many && s.kind != PAD && s.kind != INFO_TS && c.rng.chance(2, 3) {
                let k = *c.rng.pick(&[255usize, 256, 4095, 8170, 8192, 32_767, 32_768, 65_534, 65_535]);
                s.body.resize(k.max(s.body.len()), 0x55);
            }
            at = b.len();
            b.extend(s.bytes());
        }
        // in the last submessage, mostly
        let k = match c.rng.below(5) {
            0 => b.len(),
            1 => c.rng.usize(b.len() + 1),
            2 => b.len() - 1,
            _ => at + c.rng.usize(b.len() - at + 1),
        };
        let b = &b[..k];
        let kind = gen_kind(&mut c.rng);
        let mut chunks = vec![];
        let size = *c.rng.pick(&[1000usize, 4096, 65_000, 1 << 20]);
        let mut left = k;
        while left > 0 {
            let n = left.min(c.rng.range(1, size));
            chunks.push(n);
            left -= n;
        }
        at_the_end(c, b, kind, &chunks)?;
        c.count("long_streams", 1);
        c.nontrivial(b);
        Ok(())
    });
    x.require("long_streams", 50 * x.scale.min(100) / 100);
    // every kind and flags, one submessage cut everywhere, alone and after another
    x.sweep("kinds and flags", 65536, |c| {
        let (sub, flags) = ((c.idx >> 8) as u8, c.idx as u8);
        if sub == DATA || sub == DATA_FRAG {
            return Ok(());
        }
        let s = gen_sub_flags(&mut c.rng, sub, flags, &OPTS);
        let mut b = header_bytes((2, 4), [1, 2], [3; 12]);
        if c.rng.bool() {
            b.extend(gen_sub_kind(&mut c.rng, HEARTBEAT, &OPTS).bytes());
        }
        let from = b.len();
        b.extend(s.bytes());
        // a length of zero is another matter, save for PAD and INFO_TS
        if s.body.is_empty() && sub != PAD && sub != INFO_TS {
            b.truncate(from + 3);
        }
        let mut cuts = vec![from, b.len(), b.len() - 1, from + 1, from + c.rng.usize(b.len() - from + 1)];
        cuts.push(from + 4.min(b.len() - from));
        for k in cuts {
            at_the_end(c, &b[..k], 1, &[k])?;
        }
        c.nontrivial_u64(c.idx);
        Ok(())
    });
    for w in ["ended_between_submessages", "broke_off", "framed_ended", "framed_broke_off", "outcomes_before_the_end"] {
        x.require(w, 1000 * x.scale.min(100) / 100);
    }
}

// ---------------------------------------------------------------- C28

const KINDS: [ErrorKind; 5] = [ErrorKind::BrokenPipe, ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::ConnectionReset, ErrorKind::TimedOut];

/// Takes so many bytes, then fails (or takes nothing, if there is no error).
struct Sink {
    got: Vec<u8>,
    left: usize,
    step: usize,
    fail: Option<ErrorKind>,
    /// report an interruption before every that many calls
    interrupt: u64,
    calls: u64,
    failed: u64,
}
impl Sink {
    fn new(left: usize, step: usize, fail: Option<ErrorKind>, interrupt: u64) -> Sink {
        Sink { got: vec![], left, step, fail, interrupt, calls: 0, failed: 0 }
    }
}
impl std::io::Write for Sink {
    fn write(&mut self, x: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let n = x.len().min(self.step).min(self.left);
        if n == 0 && !x.is_empty() {
            self.failed += 1;
            return match self.fail {
                Some(k) => Err(Error::from(k)),
                None => Ok(0),
            };
        }
        self.got.extend_from_slice(&x[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct Source<'a> {
    b: &'a [u8],
    step: usize,
    fail: Option<ErrorKind>,
    interrupt: u64,
    calls: u64,
}
impl std::io::Read for Source<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let n = self.step.min(out.len()).min(self.b.len());
        if n == 0 && !out.is_empty() {
            return match self.fail {
                Some(k) => Err(Error::from(k)),
                None => Ok(0),
            };
        }
        out[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}

fn gen_value<T: Wire>(r: &mut Rng, le: bool) -> T {
    let (lay, built) = T::make(r);
    match built {
        Some(x) => x,
        None => {
            let mut e = Enc::new(le);
            lay(&mut e);
            read(le, &e.b)
        }
    }
}
fn positions(r: &mut Rng, n: usize) -> Vec<usize> {
    if n <= 80 {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = (0..32).map(|_| r.usize(n)).collect();
    v.extend(0..24);
    v.extend(n - 12..n);
    v
}

/// the value written to a stream, and to a buffer, that takes k bytes only
fn failing_write<T: Wire>(c: &mut Case, x: &T, w: &[u8], le: bool, k: usize) -> Result<(usize, Option<ErrorKind>), Bad> {
    let (e, n) = (end(le), w.len());
    let fail = if c.rng.chance(1, 4) { None } else { Some(*c.rng.pick(&KINDS)) };
    let step = if c.rng.bool() { usize::MAX } else { c.rng.range(1, 5) };
    let mut s = Sink::new(k, step, fail, 0);
    let r = x.write_to_stream_with_ctx(e, &mut s);
    ensure!(r.is_err(), "writing {x:?} (little endian: {le}), {n} bytes, to a stream that fails after {k} ({fail:?}) is reported as success; it got {}", hex(&s.got));
    ensure!(w.starts_with(&s.got[..]), "writing {x:?} (little endian: {le}) to a stream that fails after {k}: it got {}, the encoding is {}", hex(&s.got), hex(w));
    ensure!(s.failed == 1, "writing {x:?} went on after the stream had failed at {k} ({} failing calls)", s.failed);
    let mut b = vec![0xa5; k];
    ensure!(x.write_to_buffer_with_ctx(e, &mut b).is_err(), "writing {x:?} ({n} bytes) to a buffer of {k} is reported as success: {}", hex(&b));
    Ok((step, fail))
}

/// parameters whose value is padded: read back, they are others
fn padded(c: &mut Case) -> Verdict {
    let le = c.rng.bool();
    let id = c.rng.u16v();
    let n = if c.rng.chance(1, 20) { c.rng.range(60, 3000) } else { c.rng.usize(30) };
    let x = crate::values::new_param(id, c.rng.bytes(n));
    let w = match x.write_to_vec_with_ctx(end(le)) {
        Ok(w) => w,
        Err(e) => return bad(format!("a parameter with a value of {n} bytes could not be written: {e}")),
    };
    c.note(|| format!("parameter {id:#06x} with {n} bytes, {} (little endian: {le})", hex(&w)));
    for k in positions(&mut c.rng, w.len()) {
        failing_write(c, &x, &w, le, k)?;
        c.count("padded_faults", 2);
    }
    for k in w.len().saturating_sub(5)..w.len() {
        failing_write(c, &x, &w, le, k)?;
    }
    c.nontrivial(&[&[7, le as u8], &w[..]].concat());
    Ok(())
}

fn faults<T: Wire>(c: &mut Case) -> Verdict {
    let le = c.rng.bool();
    let e = end(le);
    let x: T = gen_value(&mut c.rng, le);
    let w = match x.write_to_vec_with_ctx(e) {
        Ok(w) => w,
        Err(er) => return bad(format!("{x:?} could not be written: {er}")),
    };
    let n = w.len();
    c.note(|| format!("{} {x:?} {} (little endian: {le})", T::NAME, hex(&w)));
    for k in positions(&mut c.rng, n) {
        let (step, fail) = failing_write(c, &x, &w, le, k)?;
        // a stream that breaks after k bytes
        for how in 0..2 {
            let src = Source { b: &w[..k], step, fail, interrupt: 0, calls: 0 };
            let r = if how == 0 { T::read_from_stream_unbuffered_with_ctx(e, src) } else { T::read_from_stream_buffered_with_ctx(e, src) };
            if let Ok(y) = r {
                return bad(format!("reading a {} from a stream that breaks ({fail:?}) after {k} of the {n} bytes {} gave {y:?} (little endian: {le}, buffered: {})", T::NAME, hex(&w), how == 1));
            }
        }
        c.count("faults", 4);
    }
    // interruptions are none of the value's business
    for interrupt in [2, 3] {
        let step = c.rng.range(1, 9);
        let mut s = Sink::new(n, step, Some(ErrorKind::Other), interrupt);
        let r = x.write_to_stream_with_ctx(e, &mut s);
        ensure!(r.is_ok() && s.got == w, "writing {x:?} (little endian: {le}) to a stream that is interrupted now and then: {:?}, {} instead of {}", r.err(), hex(&s.got), hex(&w));
        for how in 0..2 {
            let src = Source { b: &w, step, fail: None, interrupt, calls: 0 };
            let r = if how == 0 { T::read_from_stream_unbuffered_with_ctx(e, src) } else { T::read_from_stream_buffered_with_ctx(e, src) };
            match r {
                Ok(y) => ensure!(y == x, "{} read from a stream that is interrupted now and then as {y:?} instead of {x:?}", hex(&w)),
                // speedy's own buffer hands interruptions on
                Err(_) if how == 1 => {}
                Err(er) => return bad(format!("{} not readable as {} from a stream that is interrupted now and then: {er}", hex(&w), T::NAME)),
            }
        }
        c.count("interrupted", 3);
    }
    // more room than needed stays as it was
    let extra = c.rng.range(1, 40);
    let mut b = vec![0xa5; n + extra];
    ensure!(x.write_to_buffer_with_ctx(e, &mut b).is_ok(), "writing {x:?} ({n} bytes) to a buffer of {} failed", n + extra);
    ensure!(b[..n] == w && b[n..].iter().all(|x| *x == 0xa5), "writing {x:?} ({n} bytes) to a buffer of {} gave {} instead of {} and the rest untouched", n + extra, hex(&b), hex(&w));
    // one value after the other through one stream
    let y: T = gen_value(&mut c.rng, le);
    let mut s = Sink::new(usize::MAX, 7, None, 0);
    let ok = x.write_to_stream_with_ctx(e, &mut s).is_ok() && y.write_to_stream_with_ctx(e, &mut s).is_ok();
    let both = [w.clone(), write(le, &y)].concat();
    ensure!(ok && s.got == both, "writing {x:?} and {y:?} to one stream gave {} instead of {}", hex(&s.got), hex(&both));
    let mut src = Source { b: &both, step: 5, fail: Some(ErrorKind::Other), interrupt: 0, calls: 0 };
    for (z, left) in [(&x, both.len() - n), (&y, 0)] {
        match T::read_from_stream_unbuffered_with_ctx(e, &mut src) {
            Ok(g) => ensure!(g == *z && src.b.len() == left, "{} read from a stream of two: {g:?} instead of {z:?}, {} bytes left instead of {left} (little endian: {le})", T::NAME, src.b.len()),
            Err(er) => return bad(format!("{z:?} not readable from a stream of two {}: {er}", hex(&both))),
        }
    }
    c.count("in_sequence", 2);
    c.nontrivial(&[T::NAME.as_bytes(), &w].concat());
    c.sample(|| format!("{} {}", T::NAME, hex(&w)));
    Ok(())
}

/// Bytes that nobody wrote, such as a parameter of an odd length: whatever was
/// used of an intact stream is needed.
fn needed<T: Wire>(c: &mut Case) -> Verdict {
    let le = c.rng.bool();
    let e = end(le);
    let (lay, _) = T::make(&mut c.rng);
    let mut en = Enc::new(le);
    lay(&mut en);
    let mut b = en.b;
    b.truncate(4000);
    let odd = T::NAME == "Parameter";
    if odd {
        let n = c.rng.usize(b.len() - 3) as u16;
        b[2..4].copy_from_slice(&if le { n.to_le_bytes() } else { n.to_be_bytes() });
    }
    // speedy's vectors take a count read from a stream at its word
    if !b.is_empty() && !["LocatorList_t", "InfoReply"].contains(&T::NAME) {
        for _ in 0..c.rng.usize(3) {
            let from = if odd { 4.min(b.len() - 1) } else { 0 };
            let at = c.rng.range(from, b.len() - 1);
            b[at] = match c.rng.below(3) {
                0 => b[at] ^ (1 << c.rng.below(8)),
                1 => c.rng.below(9) as u8,
                _ => c.rng.u8(),
            };
        }
    }
    b.extend(c.rng.bytes(300));
    c.note(|| format!("{} from {} (little endian: {le})", T::NAME, hex(&b)));
    let mut src = Source { b: &b, step: usize::MAX, fail: None, interrupt: 0, calls: 0 };
    let Ok(x) = T::read_from_stream_unbuffered_with_ctx(e, &mut src) else { return Ok(()) };
    let n = b.len() - src.b.len();
    let mut at = positions(&mut c.rng, n);
    at.extend(n.saturating_sub(6)..n);
    for k in at {
        let fail = if c.rng.chance(1, 3) { None } else { Some(*c.rng.pick(&KINDS)) };
        let step = if c.rng.bool() { usize::MAX } else { c.rng.range(1, 5) };
        for how in 0..3 {
            let src = Source { b: &b[..k], step, fail, interrupt: 0, calls: 0 };
            let r = match how {
                0 => T::read_from_stream_unbuffered_with_ctx(e, src).ok(),
                1 => T::read_from_stream_buffered_with_ctx(e, src).ok(),
                _ => T::read_from_buffer_with_ctx(e, &b[..k]).ok(),
            };
            if let Some(y) = r {
                return bad(format!("{x:?} uses {n} bytes of {}; with only {k} of them ({fail:?}, way {how}) there is still a value: {y:?} (little endian: {le})", hex(&b)));
            }
        }
        c.count("needed", 3);
    }
    c.nontrivial(&[&[9, le as u8], &b[..n]].concat());
    Ok(())
}

pub fn c28(x: &Ctx) {
    macro_rules! run_needed {
        ($($t:ty),*) => { $( x.cases(&format!("bytes of {}", <$t as Wire>::NAME), 400, needed::<$t>); )* };
    }
    crate::all_wires!(run_needed);
    macro_rules! run {
        ($($t:ty),*) => { $( x.cases(<$t as Wire>::NAME, 1_200, faults::<$t>); )* };
    }
    crate::all_wires!(run);
    x.cases("padded parameters", 6_000, padded);
    for w in ["faults", "needed", "padded_faults", "interrupted", "in_sequence"] {
        x.require(w, 1000 * x.scale.min(100) / 100);
    }
}
