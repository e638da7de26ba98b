//! Counting allocator: the monitor behind the memory-bound property.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    /// bytes live now, relative to the start of the measurement
    pub live: i64,
    pub peak: i64,
    pub largest: u64,
    pub calls: u64,
    /// bytes asked for altogether
    pub total: u64,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static MK: Cell<Stats> = const { Cell::new(Stats { live: 0, peak: 0, largest: 0, calls: 0, total: 0 }) };
    static ST: Cell<Stats> = const { Cell::new(Stats { live: 0, peak: 0, largest: 0, calls: 0, total: 0 }) };
}

pub struct Counting;

fn got(n: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let up = |c: &Cell<Stats>| {
                let mut s = c.get();
                s.live += n as i64;
                s.peak = s.peak.max(s.live);
                s.largest = s.largest.max(n as u64);
                s.calls += 1;
                s.total += n as u64;
                c.set(s);
            };
            let _ = ST.try_with(up);
            let _ = MK.try_with(up);
        }
    });
}
fn gave(n: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let down = |c: &Cell<Stats>| {
                let mut s = c.get();
                s.live -= n as i64;
                c.set(s);
            };
            let _ = ST.try_with(down);
            let _ = MK.try_with(down);
        }
    });
}

/// Nothing here legitimately asks for this much at once; refusing it turns such
/// a request into the same abort on every machine, however much memory it has.
const REFUSED: usize = 1 << 30;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() >= REFUSED {
            return std::ptr::null_mut();
        }
        got(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() >= REFUSED {
            return std::ptr::null_mut();
        }
        got(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        gave(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n >= REFUSED {
            return std::ptr::null_mut();
        }
        gave(l.size());
        got(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

/// Runs `f`, reporting what this thread asked the allocator for meanwhile.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, Stats) {
    ST.with(|c| c.set(Stats::default()));
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    (r, ST.with(|c| c.get()))
}
/// A panic may leave the measurement on.
pub fn reset() {
    ON.with(|o| o.set(false));
}
/// Within a measurement: what happens from `mark` to `since_mark`.
pub fn mark() {
    MK.with(|c| c.set(Stats::default()));
}
pub fn since_mark() -> Stats {
    MK.with(|c| c.get())
}
/// Within a measurement: bytes live now.
pub fn live() -> i64 {
    ST.with(|c| c.get().live)
}
/// Within a measurement: something that does not count.
pub fn pause(f: impl FnOnce()) {
    let was = ON.with(|o| o.replace(false));
    f();
    ON.with(|o| o.set(was));
}
