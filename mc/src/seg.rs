//! Sparse symbolic file content: a set of non-overlapping segments, every byte of which is
//! `pat(stamp, x - base)`; everything else is zero.
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Seg {
    pub start: u64,
    pub end: u64,
    pub stamp: u32,
    pub base: u64,
}

/// length of the pattern table (prime, so no power of two distance repeats)
const L: u64 = 262_139;

fn table() -> &'static [u8] {
    static T: OnceLock<Vec<u8>> = OnceLock::new();
    T.get_or_init(|| {
        let mut x: u64 = 0x9E37_79B9_7F4A_7C15;
        (0..L)
            .map(|_| {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                1 + ((x >> 24) % 255) as u8
            })
            .collect()
    })
}

#[inline]
fn pos(stamp: u32, i: u64) -> usize {
    ((stamp as u64 * 7919 + i % L) % L) as usize
}

/// fill `dst` with the pattern of `stamp` starting at index i
pub fn fill(dst: &mut [u8], stamp: u32, i: u64) {
    let t = table();
    let mut p = pos(stamp, i);
    let mut done = 0;
    while done < dst.len() {
        let n = (t.len() - p).min(dst.len() - done);
        dst[done..done + n].copy_from_slice(&t[p..p + n]);
        done += n;
        p = 0;
    }
}

pub fn pattern(stamp: u32, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    fill(&mut v, stamp, 0);
    v
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct SegMap(pub Vec<Seg>);

impl SegMap {
    fn cut(&mut self, a: u64, b: u64) {
        if a >= b || self.0.iter().all(|s| s.end <= a || s.start >= b) {
            return;
        }
        let mut out = Vec::with_capacity(self.0.len() + 1);
        for s in self.0.drain(..) {
            if s.end <= a || s.start >= b {
                out.push(s);
                continue;
            }
            if s.start < a {
                out.push(Seg { end: a, ..s });
            }
            if s.end > b {
                out.push(Seg { start: b, ..s });
            }
        }
        self.0 = out;
    }
    fn norm(&mut self) {
        self.0.sort_by_key(|s| s.start);
        let mut out: Vec<Seg> = Vec::with_capacity(self.0.len());
        for s in self.0.drain(..) {
            if let Some(l) = out.last_mut() {
                if l.end == s.start && l.stamp == s.stamp && l.base == s.base {
                    l.end = s.end;
                    continue;
                }
            }
            out.push(s);
        }
        self.0 = out;
    }
    pub fn write(&mut self, off: u64, len: u64, stamp: u32, base: u64) {
        if len == 0 {
            return;
        }
        self.cut(off, off + len);
        self.0.push(Seg { start: off, end: off + len, stamp, base });
        self.norm();
    }
    pub fn truncate(&mut self, size: u64) {
        self.cut(size, u64::MAX);
    }
    /// copy [0,len) of `other` over [0,len) of self
    pub fn copy_prefix(&mut self, other: &SegMap, len: u64) {
        self.cut(0, len);
        for s in &other.0 {
            if s.start < len {
                self.0.push(Seg { end: s.end.min(len), ..*s });
            }
        }
        self.norm();
    }
    pub fn read(&self, off: u64, len: usize) -> Vec<u8> {
        let mut v = vec![0u8; len];
        let e = off.saturating_add(len as u64);
        for s in &self.0 {
            let a = s.start.max(off);
            let b = s.end.min(e);
            if a < b {
                fill(&mut v[(a - off) as usize..(b - off) as usize], s.stamp, a - s.base);
            }
        }
        v
    }
    /// positions worth looking at
    pub fn edges(&self) -> Vec<u64> {
        let mut r = vec![];
        for s in &self.0 {
            r.push(s.start);
            r.push(s.end);
        }
        r
    }
}
