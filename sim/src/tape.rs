//! The choice tape: the only source of decisions in a run.
use crate::rt::mix;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::OnceLock;

/// Address of shared memory the choices are copied to while minimising; 0 when off.
pub static MIRROR: AtomicU64 = AtomicU64::new(0);

pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}
pub static DICT: OnceLock<Dict> = OnceLock::new();
pub fn dict() -> &'static Dict {
    DICT.get().expect("dictionary")
}

pub struct Tape {
    pub vals: Vec<u64>,
    pos: usize,
    fixed: usize,
    replay: bool,
    s: [u64; 4],
    pub out: Vec<u64>,
    /// the previous number and string, for fields that agree with their neighbours
    last: u64,
    last_blob: Vec<u8>,
}

pub const MAX_TAPE: usize = 400_000;

impl Tape {
    pub fn random(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            x = mix(x);
            *v = x;
        }
        Self { vals: Vec::new(), pos: 0, fixed: 0, replay: false, s, out: Vec::with_capacity(256), last: 0, last_blob: Vec::new() }
    }
    pub fn replay(vals: Vec<u64>) -> Self {
        let n = vals.len();
        Self { vals, pos: 0, fixed: n, replay: true, s: [1; 4], out: Vec::new(), last: 0, last_blob: Vec::new() }
    }
    fn next(&mut self) -> u64 {
        // xoshiro256**
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// A value in 0..n; 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = if self.replay {
            let v = if self.pos < self.fixed { self.vals[self.pos] } else { 0 };
            self.pos += 1;
            if v < n { v } else { v % n }
        } else if self.out.len() >= MAX_TAPE {
            0
        } else {
            let r = self.next();
            ((r as u128 * n as u128) >> 64) as u64
        };
        if self.out.len() < MAX_TAPE {
            self.out.push(v);
            let m = MIRROR.load(Relaxed);
            if m != 0 {
                // [length, values..]: survives the death of this process
                unsafe {
                    let p = m as *mut u64;
                    let n = self.out.len();
                    p.add(n).write_volatile(v);
                    p.write_volatile(n as u64);
                }
            }
        }
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True with probability p/100; false is the simple choice.
    pub fn pct(&mut self, p: u64) -> bool {
        if p == 0 {
            return false;
        }
        // high values mean true so that zeroing the tape turns it off
        self.below(100) >= 100 - p.min(100)
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.idx(v.len())]
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn u8(&mut self) -> u8 {
        self.below(256) as u8
    }
    /// A number in 0..=max, biased to boundaries and to constants that occur in the sources.
    pub fn num(&mut self, max: u64) -> u64 {
        let v = self.num1(max);
        self.last = v;
        v
    }
    fn num1(&mut self, max: u64) -> u64 {
        let m = |x: u64| if x > max { if max == u64::MAX { x } else { x % (max + 1) } } else { x };
        match self.below(11) {
            0..=2 => {
                let k = self.below(8);
                m(k)
            }
            3 => {
                let k = self.below(4);
                max - k.min(max)
            }
            4 => {
                let bits = 64 - max.leading_zeros() as u64;
                let b = self.below(bits.max(1));
                let d = self.below(3);
                m((1u64 << b).wrapping_add(d).wrapping_sub(1))
            }
            5 => {
                let d = dict();
                let i = self.idx(d.ints.len().max(1));
                let v = d.ints.get(i).copied().unwrap_or(0);
                let k = self.below(3);
                m(v.wrapping_add(k).wrapping_sub(1))
            }
            6 => {
                let k = self.below(4);
                m(self.last.wrapping_add([0, 0, 1, u64::MAX][k as usize]))
            }
            _ => {
                if max == u64::MAX {
                    let hi = self.below(1 << 32);
                    (hi << 32) | self.below(1 << 32)
                } else {
                    self.below(max + 1)
                }
            }
        }
    }
    /// A length in 0..=max with sizes from the dictionary and mostly small ones.
    pub fn len(&mut self, max: usize) -> usize {
        let v = match self.below(16) {
            0..=9 => self.below(9),
            10..=11 => self.below(40),
            12 => {
                let d = dict();
                let i = self.idx(d.ints.len().max(1));
                let v = d.ints.get(i).copied().unwrap_or(0);
                let k = self.below(3);
                v.wrapping_add(k).wrapping_sub(1)
            }
            13 => max as u64 - self.below(3).min(max as u64),
            14 => {
                let b = self.below(10);
                let k = self.below(3);
                ((1u64 << b) + k).saturating_sub(1)
            }
            _ => self.below(max as u64 + 1),
        };
        (v.min(u32::MAX as u64) as usize).min(max)
    }
    /// A string that occurs in the sources.
    pub fn word(&mut self) -> Vec<u8> {
        let d = dict();
        let i = self.idx(d.strs.len().max(1));
        d.strs.get(i).cloned().unwrap_or_default()
    }
    /// Up to max octets: some length of something, or exactly a string of the sources.
    pub fn blob(&mut self, max: usize) -> Vec<u8> {
        if self.below(16) == 15 {
            let mut t = self.word();
            if self.pct(20) {
                let u = self.word();
                t.extend(u);
            }
            t.truncate(max);
            return t;
        }
        if self.below(24) == 23 && self.last_blob.len() <= max {
            return self.last_blob.clone();
        }
        let n = self.len(max);
        let v = self.bytes(n);
        self.last_blob.clone_from(&v);
        v
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        match self.below(8) {
            0 => {
                let b = self.u8();
                vec![b; n]
            }
            1 => vec![0xff; n],
            2 => {
                let t = self.word();
                let mut v = Vec::with_capacity(n);
                match self.below(4) {
                    // at the start, at the end, everywhere
                    0..=1 => v.extend_from_slice(&t),
                    2 => {
                        v.resize(n.saturating_sub(t.len()), b'a');
                        v.extend_from_slice(&t);
                    }
                    _ => {
                        while v.len() < n && !t.is_empty() {
                            v.extend_from_slice(&t);
                        }
                    }
                }
                v.resize(n, b'a');
                v
            }
            3 => {
                // one octet that stands out, often at an end
                let b = self.u8();
                let mut v = vec![b; n];
                if n > 0 {
                    let i = match self.below(3) {
                        0 => 0,
                        1 => n - 1,
                        _ => self.idx(n),
                    };
                    v[i] = self.pick(&[0, 1, 0x7f, 0x80, 0xff, b' ', b'.', b'"']);
                }
                v
            }
            _ => {
                // one choice seeds eight bytes: keeps tapes short and still deterministic
                let mut v = Vec::with_capacity(n);
                while v.len() < n {
                    let x = mix(self.below(1 << 32));
                    for k in 0..8 {
                        if v.len() < n {
                            v.push((x >> (8 * k)) as u8);
                        }
                    }
                }
                v
            }
        }
    }
}

/// Literals of the sources under test, used only to bias generated numbers and strings.
pub fn harvest(dir: &str) -> Dict {
    fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
        if let Ok(rd) = std::fs::read_dir(p) {
            let mut e: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            e.sort();
            for f in e {
                if f.is_dir() {
                    walk(&f, out);
                } else if f.extension().map(|x| x == "rs").unwrap_or(false) {
                    out.push(f);
                }
            }
        }
    }
    let mut files = Vec::new();
    walk(std::path::Path::new(dir), &mut files);
    let mut ints = std::collections::BTreeMap::<u64, usize>::new();
    let mut strs = std::collections::BTreeMap::<Vec<u8>, usize>::new();
    for f in files {
        let Ok(src) = std::fs::read_to_string(&f) else { continue };
        let src = match src.find("#[cfg(test)]") {
            Some(i) => &src[..i],
            None => &src[..],
        };
        let src: String = src.lines().map(|l| l.split("//").next().unwrap_or("")).collect::<Vec<_>>().join("\n");
        let b = src.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_' || b[i - 1] == b'.')) {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                    j += 1;
                }
                let t: String = src[i..j].chars().filter(|c| *c != '_').collect();
                let t = t.trim_end_matches("u8").trim_end_matches("u16").trim_end_matches("u32").trim_end_matches("u64").trim_end_matches("usize").trim_end_matches("i32");
                let v = if let Some(h) = t.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).ok()
                } else if let Some(h) = t.strip_prefix("0b") {
                    u64::from_str_radix(h, 2).ok()
                } else {
                    t.parse().ok()
                };
                if let Some(v) = v {
                    if v > 3 {
                        *ints.entry(v).or_default() += 1;
                    }
                }
                i = j;
            } else if b[i] == b'\'' && i > 0 && b[i - 1] == b'b' || b[i] == b'"' {
                let q = b[i];
                let mut j = i + 1;
                let mut t = Vec::new();
                while j < b.len() && b[j] != q {
                    if b[j] == b'\\' && j + 1 < b.len() {
                        j += 1;
                        match b[j] {
                            b'n' => t.push(b'\n'),
                            b't' => t.push(b'\t'),
                            b'r' => t.push(b'\r'),
                            b'0' => t.push(0),
                            b'x' => {
                                t.push(src.get(j + 1..j + 3).and_then(|h| u8::from_str_radix(h, 16).ok()).unwrap_or(b'x'));
                                j += 2;
                            }
                            c => t.push(c),
                        }
                    } else {
                        t.push(b[j]);
                    }
                    j += 1;
                }
                if !t.is_empty() && t.len() <= 40 && !t.contains(&b'{') {
                    *strs.entry(t).or_default() += 1;
                }
                i = j + 1;
            } else {
                i += 1;
            }
        }
    }
    // what occurs once is the more specific
    let ints = ints.into_iter().flat_map(|(v, n)| std::iter::repeat(v).take(if n == 1 { 3 } else { 1 })).collect();
    let strs = strs.into_iter().take(600).flat_map(|(v, n)| std::iter::repeat(v).take(if n == 1 { 2 } else { 1 })).collect();
    Dict { ints, strs }
}
