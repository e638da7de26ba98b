//! Deterministic random numbers and "interesting value" generation.
use std::sync::{Arc, OnceLock};

/// A generator with a short memory: values made before in the same case come
/// back (equal or nearly so) elsewhere, which no independent draws would do.
pub struct Rng {
    s: [u64; 4],
    ints: [i128; 8],
    arrs: [([u8; 16], u8); 8],
    n: (u32, u32),
    tape: Option<Tape>,
}
/// The draws of an earlier case (perhaps changed), to be made again, and a
/// record of those of this one. What goes on after the tape's end is random.
struct Tape {
    replay: Arc<Vec<u64>>,
    pos: usize,
    /// never grows: what is recorded must not disturb allocation monitors
    rec: Vec<u64>,
}
impl Clone for Rng {
    /// Will draw the same as the original from here on, but records nothing.
    fn clone(&self) -> Rng {
        let tape = self.tape.as_ref().map(|t| Tape { replay: t.replay.clone(), pos: t.pos, rec: Vec::new() });
        Rng { s: self.s, ints: self.ints, arrs: self.arrs, n: self.n, tape }
    }
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(h: u64, data: &[u8]) -> u64 {
    // FNV-1a with a final mix; good enough for signatures.
    let mut x = h ^ 0xcbf2_9ce4_8422_2325;
    for b in data {
        x = (x ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    let mut y = x;
    splitmix(&mut y)
}

impl Rng {
    pub fn new(seed: u64, prop: &str, stream: &str, idx: u64) -> Rng {
        let mut s = hash_bytes(seed, prop.as_bytes());
        s = hash_bytes(s, stream.as_bytes());
        s = hash_bytes(s, &idx.to_le_bytes());
        Rng {
            s: [splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)],
            ints: [0; 8],
            arrs: [([0; 16], 0); 8],
            n: (0, 0),
            tape: None,
        }
    }
    /// `rec` is an empty vector whose capacity bounds what is recorded.
    pub fn on_tape(mut self, replay: Arc<Vec<u64>>, rec: Vec<u64>) -> Rng {
        self.tape = Some(Tape { replay, pos: 0, rec });
        self
    }
    /// The recorded draws, and whether they are all there.
    pub fn recorded(&mut self) -> (Vec<u64>, bool) {
        match self.tape.take() {
            Some(t) => {
                let all = t.pos <= t.rec.len();
                (t.rec, all)
            }
            None => (vec![], false),
        }
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        let r = self.prng();
        match &mut self.tape {
            None => r,
            Some(t) => {
                let r = t.replay.get(t.pos).copied().unwrap_or(r);
                t.pos += 1;
                if t.rec.len() < t.rec.capacity() {
                    t.rec.push(r);
                }
                r
            }
        }
    }
    #[inline]
    fn prng(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        self.u64() as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 13) as u8
    }
    /// A word of a bitmap.
    pub fn word(&mut self) -> u32 {
        match self.below(6) {
            0 => 0,
            1 => u32::MAX,
            2 => 1 << self.below(32),
            3 => self.u32() & self.u32() & self.u32(),
            _ => self.u32(),
        }
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u64() % n }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 4 != 0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let style = self.below(5);
        (0..n)
            .map(|_| match style {
                0 => 0x00,
                1 => 0xff,
                2 => *self.pick(&[0x00, 0xff, 0x80, 0x7f, 0x01]),
                _ => self.u8(),
            })
            .collect()
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0u8; N];
        match self.below(8) {
            0 => {}
            1 => a = [0xff; N],
            2 => a[self.usize(N)] = self.u8() | 1,
            3 => {
                for (i, x) in a.iter_mut().enumerate() {
                    *x = i as u8 + 1
                }
            }
            // as made before, or but for one byte
            4 if self.n.1 > 0 => {
                let (old, len) = self.arrs[self.usize((self.n.1 as usize).min(8))];
                for (i, x) in a.iter_mut().enumerate() {
                    *x = if len == 0 { 0 } else { old[i % usize::from(len)] };
                }
                if self.chance(1, 3) {
                    let i = self.usize(N);
                    a[i] ^= 1 << self.below(8);
                }
            }
            // as written in the sources under test
            5 if !byte_literals().is_empty() => {
                let d = self.pick(byte_literals());
                let rest = *self.pick(&[0u8, 0, 0xff, 1, 0x5a]);
                let at = if d.len() < N && self.bool() { N - d.len() } else { 0 };
                for (i, x) in a.iter_mut().enumerate() {
                    *x = if i >= at && i - at < d.len() { d[i - at] } else { rest };
                }
                if self.chance(1, 4) {
                    let i = self.usize(N);
                    a[i] = self.u8();
                }
            }
            _ => {
                for x in a.iter_mut() {
                    *x = self.u8()
                }
            }
        }
        let mut keep = [0u8; 16];
        let len = N.min(16);
        keep[..len].copy_from_slice(&a[..len]);
        self.arrs[self.n.1 as usize % 8] = (keep, len as u8);
        self.n.1 += 1;
        a
    }
    /// Integer in [lo, hi], biased to boundaries, powers of two, integers made
    /// before, and the integer literals that occur in the sources under test.
    pub fn int(&mut self, lo: i128, hi: i128) -> i128 {
        let v = self.int_fresh(lo, hi);
        self.ints[self.n.0 as usize % 8] = v;
        self.n.0 += 1;
        v
    }
    fn int_fresh(&mut self, lo: i128, hi: i128) -> i128 {
        let span = (hi - lo + 1) as u128;
        let v = match self.below(9) {
            0 => *self.pick(&[lo, hi, 0, 1, -1]) + self.below(7) as i128 - 3,
            1 => {
                let p = 1i128 << self.below(65);
                let p = if self.bool() { -p } else { p };
                p + self.below(5) as i128 - 2
            }
            2 => {
                let d = literals();
                let v = if d.is_empty() { 0 } else { *self.pick(d) };
                let v = if self.chance(1, 4) { -v } else { v };
                if self.bool() { v } else { v + self.below(3) as i128 - 1 }
            }
            3 => self.below(20) as i128,
            4 => {
                let mut b = [0u8; 8];
                for x in b.iter_mut() {
                    *x = match self.below(6) {
                        0 => 0,
                        1 => 0xff,
                        2 => 0x80,
                        3 => 0x7f,
                        _ => self.u8(),
                    }
                }
                if self.bool() { i64::from_le_bytes(b) as i128 } else { i32::from_le_bytes([b[0], b[1], b[2], b[3]]) as i128 }
            }
            5 => self.below(1 << 20) as i128 - (1 << 10),
            6 if self.n.0 > 0 => {
                let old = self.ints[self.usize((self.n.0 as usize).min(8))];
                match self.below(8) {
                    0 => old + 1,
                    1 => old - 1,
                    2 => -old,
                    3 => old ^ (1 << self.below(64)),
                    4 => old + *self.pick(&[31, 32, 255, 256, 1 << 32, 1 << 31]),
                    _ => old,
                }
            }
            _ => {
                let r = (u128::from(self.u64()) << 64) | u128::from(self.u64());
                return lo + (r % span) as i128;
            }
        };
        if v < lo || v > hi {
            let r = (u128::from(self.u64()) << 64) | u128::from(self.u64());
            lo + (r % span) as i128
        } else {
            v
        }
    }
    pub fn i64v(&mut self) -> i64 {
        self.int(i64::MIN as i128, i64::MAX as i128) as i64
    }
    pub fn i32v(&mut self) -> i32 {
        self.int(i32::MIN as i128, i32::MAX as i128) as i32
    }
    pub fn u32v(&mut self) -> u32 {
        self.int(0, u32::MAX as i128) as u32
    }
    pub fn u16v(&mut self) -> u16 {
        self.int(0, u16::MAX as i128) as u16
    }
    pub fn u64v(&mut self) -> u64 {
        self.int(0, u64::MAX as i128) as u64
    }
}

/// Integer literals, and runs of literal bytes, of the non-test part of the
/// sources under test. They only steer the workload; no verdict depends on them.
pub fn literals() -> &'static Vec<i128> {
    &dictionary().0
}
pub fn byte_literals() -> &'static Vec<Vec<u8>> {
    &dictionary().1
}
fn dictionary() -> &'static (Vec<i128>, Vec<Vec<u8>>) {
    static D: OnceLock<(Vec<i128>, Vec<Vec<u8>>)> = OnceLock::new();
    D.get_or_init(|| {
        let mut out = std::collections::BTreeSet::new();
        let mut runs = std::collections::BTreeSet::new();
        if cfg!(miri) {
            return (vec![0x7fff_ffff, 1_000_000_000, 256, 255, 32, 31], vec![vec![0, 0, 1, 0xc1]]);
        }
        let root = std::env::var("MONITOR_REPO").unwrap_or_else(|_| "/repo".into());
        let mut todo = vec![std::path::PathBuf::from(root).join("src")];
        while let Some(d) = todo.pop() {
            let Ok(rd) = std::fs::read_dir(&d) else { continue };
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    todo.push(p);
                } else if p.extension().map_or(false, |x| x == "rs") {
                    if let Ok(t) = std::fs::read_to_string(&p) {
                        let t = t.split("#[cfg(test)]").next().unwrap_or("").to_string();
                        scan(&t, &mut out);
                        scan_runs(&t, &mut runs);
                    }
                }
            }
        }
        (out.into_iter().collect(), runs.into_iter().collect())
    })
}

/// Lists of small integers ("[0x00, 0x00, 0x01]", "(239, 255, 0, 1)",
/// "[0xff; 4]"), the byte after such a list's line where entity ids keep
/// their kind, and short strings.
fn scan_runs(t: &str, out: &mut std::collections::BTreeSet<Vec<u8>>) {
    let num = |w: &str| -> Option<u8> {
        let mut s: String = w.trim().chars().filter(|c| *c != '_').collect();
        if let Some(x) = s.strip_suffix("u8") {
            s = x.to_string();
        }
        match s.strip_prefix("0x") {
            Some(h) => u8::from_str_radix(h, 16).ok(),
            None => s.parse().ok(),
        }
    };
    let b: Vec<char> = t.chars().collect();
    let mut last: Option<(usize, Vec<u8>)> = None;
    let mut i = 0;
    while i < b.len() {
        if b[i] == '[' || b[i] == '(' {
            let mut j = i + 1;
            while j < b.len() && j - i < 200 && !"[]()".contains(b[j]) {
                j += 1;
            }
            let inner: String = b[i + 1..j].iter().collect();
            let run: Option<Vec<u8>> = if let Some((x, n)) = inner.split_once(';') {
                match (num(x), n.trim().parse::<usize>()) {
                    (Some(x), Ok(n)) if n <= 16 => Some(vec![x; n]),
                    _ => None,
                }
            } else {
                inner.trim_end_matches([',', ' ', '\n']).split(',').map(num).collect()
            };
            if let Some(run) = run.filter(|r| r.len() >= 2 && r.len() <= 16) {
                last = Some((j, run.clone()));
                out.insert(run);
            }
            i += 1;
        } else if b[i] == '"' {
            let mut j = i + 1;
            while j < b.len() && b[j] != '"' && b[j] != '\n' {
                j += 1;
            }
            let inner: String = b[i + 1..j].iter().collect();
            if (2..=16).contains(&inner.len()) && inner.is_ascii() {
                out.insert(inner.into_bytes());
            }
            i = j + 1;
        } else {
            // a single number soon after a list continues it
            if let Some((at, run)) = &last {
                if i > at + 1 && i < at + 60 && b[i].is_ascii_digit() && !(b[i - 1].is_alphanumeric() || b[i - 1] == '_') {
                    let mut j = i;
                    while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == '_') {
                        j += 1;
                    }
                    let w: String = b[i..j].iter().collect();
                    if let Some(x) = num(&w) {
                        let mut r = run.clone();
                        r.push(x);
                        out.insert(r);
                    }
                    last = None;
                    i = j;
                    continue;
                }
            }
            i += 1;
        }
    }
}

fn scan(t: &str, out: &mut std::collections::BTreeSet<i128>) {
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let prev_ident = i > 0 && (b[i - 1].is_alphanumeric() || b[i - 1] == '_');
        if b[i].is_ascii_digit() && !prev_ident {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == '_') {
                j += 1;
            }
            let mut s: String = b[i..j].iter().filter(|c| **c != '_').collect();
            for suf in ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize", "u128", "i128"] {
                if !s.starts_with("0x") || suf.starts_with('u') || suf.starts_with('i') {
                    if let Some(x) = s.strip_suffix(suf) {
                        s = x.to_string();
                        break;
                    }
                }
            }
            let v = if let Some(h) = s.strip_prefix("0x") {
                i128::from_str_radix(h, 16).ok()
            } else if let Some(h) = s.strip_prefix("0b") {
                i128::from_str_radix(h, 2).ok()
            } else {
                s.parse::<i128>().ok()
            };
            if let Some(v) = v {
                out.insert(v);
            }
            i = j;
        } else {
            i += 1;
        }
    }
}
