//! Edge counters of the instrumented build (see `build` in check.py), narrowed
//! down to the code under test.
#![allow(static_mut_refs)]

/// Counters as ranges of addresses, and the code addresses they stand for.
/// Filled in before main, by what the compiler put into the modules.
static mut COUNTERS: [(usize, usize); 64] = [(0, 0); 64];
static mut PCS: [(usize, usize); 64] = [(0, 0); 64];

fn add(list: &mut [(usize, usize); 64], r: (usize, usize)) {
    for e in list.iter_mut() {
        if *e == r {
            return;
        }
        if *e == (0, 0) {
            *e = r;
            return;
        }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    if start < stop {
        unsafe { add(&mut COUNTERS, (start as usize, stop as usize)) }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(start: *const usize, stop: *const usize) {
    if start < stop {
        unsafe { add(&mut PCS, (start as usize, stop as usize)) }
    }
}
extern "C" {
    static __ehdr_start: u8;
}

/// One line per counter: its code address as in the file.
pub fn pcs() -> String {
    let mut s = String::new();
    let base = unsafe { &__ehdr_start as *const u8 as usize };
    for (a, b) in unsafe { PCS } {
        let mut p = a;
        while p < b {
            let pc = unsafe { *(p as *const usize) };
            s.push_str(&format!("{:#x}\n", pc.wrapping_sub(base)));
            p += 2 * std::mem::size_of::<usize>();
        }
    }
    s
}

/// The counters that belong to the code under test.
pub struct Map {
    runs: Vec<(usize, usize, u32)>,
    pub n: u32,
}
impl Map {
    /// `select`: a '1' for each counter that counts, in the order of `pcs`.
    pub fn new(select: &str) -> Map {
        let sel = select.trim().as_bytes();
        let mut runs: Vec<(usize, usize, u32)> = vec![];
        let (mut i, mut n) = (0, 0);
        for (a, b) in unsafe { COUNTERS } {
            for p in a..b {
                if sel.get(i) == Some(&b'1') {
                    match runs.last_mut() {
                        Some(r) if r.1 == p => r.1 = p + 1,
                        _ => runs.push((p, p + 1, n)),
                    }
                    n += 1;
                }
                i += 1;
            }
        }
        Map { runs, n }
    }
    pub fn clear(&self) {
        for (a, b, _) in &self.runs {
            unsafe { std::ptr::write_bytes(*a as *mut u8, 0, b - a) }
        }
    }
    /// Calls with (number of the edge, class of how often it was taken).
    pub fn each(&self, mut f: impl FnMut(u32, u8)) {
        for (a, b, n) in &self.runs {
            for p in *a..*b {
                let c = unsafe { std::ptr::read_volatile(p as *const u8) };
                if c != 0 {
                    let class = match c {
                        1..=3 => c - 1,
                        4..=7 => 3,
                        8..=15 => 4,
                        16..=31 => 5,
                        32..=127 => 6,
                        _ => 7,
                    };
                    f(n + (p - a) as u32, class);
                }
            }
        }
    }
}
