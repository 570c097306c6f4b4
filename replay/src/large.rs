//! Streams too long to be generated at random: positions and sums beyond 32 bits, limits that no
//! short input reaches. Every stream is one byte repeated; its first cut is known beforehand.
use crate::algs::{Algo, G};
use crate::gold;
use hash_roll::*;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub struct Large {
    pub alg: &'static str,
    pub desc: String,
    /// properties a wrong first cut breaks
    pub props: Vec<&'static str>,
    algo: Box<dyn Algo + Send>,
    byte: u8,
    /// end of the first chunk
    want: u64,
    /// what find_chunk_edge has to be handed again
    window: usize,
    piece: usize,
    /// push reports a match one early (known finding)
    late: bool,
}

fn l(alg: &'static str, props: &[&'static str], desc: String, algo: Box<dyn Algo + Send>, byte: u8, want: u64, window: usize, piece: usize) -> Large {
    Large { alg, desc, props: props.to_vec(), algo, byte, want, window, piece, late: false }
}

pub fn cases(algs: &[String]) -> Vec<Large> {
    let mut out = vec![];
    let big = 1u64 << 32;
    let is = |a: &str| algs.iter().any(|x| x == a);
    if is("ram") {
        use ram::Ram;
        for w in [big + 10, big + (1 << 25)] {
            out.push(l("ram", &["C17", "C08"], format!("Ram::with_w({})", w), Box::new(G(Ram::with_w(w))), 1, w + 2, 0, (1 << 24) + 3));
        }
    }
    if is("gzip") {
        use gzip::GzipRsyncable;
        let n = (1u64 << 24) + 70000;
        out.push(l("gzip", &["C14"], format!("GzipRsyncable::with_window_and_modulus({}, {})", 1 << 25, 255 * n), Box::new(G(GzipRsyncable::with_window_and_modulus(1 << 25, 255 * n))), 255, n, 1 << 25, 1 << 22));
        out.push(l("gzip", &["C14"], format!("GzipRsyncable::with_window_and_modulus(4, {})", big + 300), Box::new(G(GzipRsyncable::with_window_and_modulus(4, big + 300))), 100, u64::MAX, 4, 1 << 20));
    }
    if is("fastcdc") {
        use fastcdc::FastCdc;
        // a table of one value whose fingerprints never match
        let mut v = 0x9e3779b97f4a7c15u64;
        let v = loop {
            v = v.wrapping_mul(0xd1342543de82ef95).wrapping_add(7);
            let mut fp = 0u64;
            if (0..200).all(|_| { fp = (fp << 1).wrapping_add(v); fp & 0x0003590703530000 != 0 && fp & 0x0000d90003530000 != 0 }) {
                break v;
            }
        };
        let t: &'static [u64; 256] = Box::leak(Box::new([v; 256]));
        for (min, normal, max) in [(big + 5, big + 5, big + 100), (big + (1 << 25), big + (1 << 25), big + (1 << 25) + 100), (big + 5, big + 9, 2 * big + 100), (10, 20, big + 100), (10, big + 20, big + 100)] {
            out.push(l("fastcdc", &["C12", "C08"], format!("FastCdc::new(&[{:#x}; 256], {}, {}, {})", v, min, normal, max), Box::new(G(FastCdc::new(t, min, normal, max))), 3, max, 0, (1 << 24) + 3));
        }
    }
    if is("zpaq") {
        use zpaq::Zpaq;
        for rg in [(Bound::Included(big + 5), Bound::Included(big + 9)), (Bound::Included(1), Bound::Excluded(big + 10))] {
            // hash 0 only: the first byte of the stream is chosen so that it stays away from it
            let mut h = 0u32;
            let ok = (0..10_000_000).all(|_| { h = h.wrapping_add(8).wrapping_mul(314159265); h != 0 });
            if ok {
                out.push(l("zpaq", &["C18", "C08"], format!("Zpaq::with_average_and_range(32, {:?})", rg), Box::new(G(Zpaq::with_average_and_range(32, rg))), 7, u64::MAX - 1, 0, (1 << 24) + 3));
            }
        }
        out.push(l("zpaq", &["C18", "C08", "C21"], "Zpaq::default()".into(), Box::new(G(Zpaq::default())), 7, u64::MAX - 1, 0, 100_001));
        for a in [10u8, 12, 18, 20] {
            out.push(l("zpaq", &["C18", "C08", "C21"], format!("Zpaq::with_average_size_pow_2({})", a), Box::new(G(Zpaq::with_average_size_pow_2(a))), 7, u64::MAX - 1, 0, 100_001));
        }
        let n = out.len();
        for (k, o) in out.iter_mut().skip(n.saturating_sub(7)).enumerate() {
            // first cut from the rule
            let ave = [32u32, 32, 16, 10, 12, 18, 20];
            let rg: [(u64, u64); 7] = [(big + 5, big + 9), (1, big + 9), (4096, 520192), (64, 8128), (256, 8128 << 2), (64 << 8, 8128 << 8), (64 << 10, 8128 << 10)];
            if n < 7 {
                o.want = u64::MAX;
                continue;
            }
            let (mut h, mut i) = (0u32, 0u64);
            let mut pred = 0u8; // what follows byte 7
            let mut first = true;
            loop {
                let m = if first { false } else { pred == 7 };
                h = h.wrapping_add(8).wrapping_mul(if m { 314159265 } else { 271828182 });
                if !first {
                    pred = 7;
                }
                first = false;
                i += 1;
                if (h as u64) < 1u64 << (32 - ave[k]) && i >= rg[k].0 || i + 1 > rg[k].1 {
                    break;
                }
            }
            o.want = i;
        }
    }
    if is("buzhash") {
        use buzhash::*;
        // a byte repeated, no hit of the hash
        let calm = |t: &[u32; 256], salt: u8, b: u8, k: usize, mask: u32| {
            let mut h = 0u32;
            (0..3 * k).all(|i| {
                h = h.rotate_left(1) ^ t[(b ^ salt) as usize] ^ if i >= k { t[(b ^ salt) as usize].rotate_left((k % 32) as u32) } else { 0 };
                h & mask != mask
            })
        };
        for salt in [0u8, 7] {
            if let Some(b) = (0..=255u8).find(|b| calm(&gold::GO_BUZHASH, salt, *b, 67, 0xfff)) {
                out.push(l("buzhash", &["C11", "C08", "C21"], format!("BuzHash::new_nom({})", salt), Box::new(G(BuzHash::new_nom(salt))), b, (1 << 24) + 1, 67, 1_000_003));
                out.push(l("buzhash", &["C11", "C08", "C21"], format!("BuzHash::new_nom({})", salt), Box::new(G(BuzHash::new_nom(salt))), b, (1 << 24) + 1, 67, 20_000_000));
            }
        }
        let t: &'static [u32; 256] = Box::leak(Box::new(gold::GO_BUZHASH));
        if let Some(b) = (0..=255u8).find(|b| calm(t, 0, *b, 16, 0x8000_ffff)) {
            out.push(l("buzhash", &["C11", "C08"], format!("BuzHash::new(16, 0x8000ffff, GO_BUZHASH, {})", big + 3), Box::new(G(BuzHash::new(16, 0x8000_ffff, BuzHashTableHash::from(t), big + 3))), b, big + 4, 16, (1 << 24) + 3));
        }
    }
    if is("mii") {
        use mii::Mii;
        out.push(l("mii", &["C15"], "Mii::with_w(1)".into(), Box::new(G(Mii::with_w(1))), 9, u64::MAX, 0, 1 << 20));
    }
    out
}

impl Large {
    /// (properties, what happened)
    pub fn run(&self, until: Instant) -> Vec<(&'static str, String)> {
        let mut fails = vec![];
        let stop = if self.want > 1 << 40 { 3u64 << 20 } else { self.want + 1000 };
        let want = if self.want > 1 << 40 { None } else { Some(self.want) };
        let buf = vec![self.byte; self.piece + self.window + 1];
        let mut seen = vec![];
        for name in ["push", "find_chunk_edge"] {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut pos = 0u64;
                if name == "push" {
                    let mut f = self.algo.incr();
                    while pos < stop {
                        if let Some(n) = f.push(&buf[..self.piece]) {
                            return Ok(Some(pos + n as u64));
                        }
                        pos += self.piece as u64;
                        if Instant::now() > until {
                            return Err(());
                        }
                    }
                } else {
                    let mut f = self.algo.fce();
                    let mut keep = 0usize;
                    while pos < stop {
                        let n = keep + self.piece.min(buf.len() - keep);
                        let (c, d) = f.find(&buf[..n]);
                        if let Some(c) = c {
                            return Ok(Some(pos - keep as u64 + c as u64));
                        }
                        pos += (n - keep) as u64;
                        keep = n - d.min(n);
                        if keep > self.window {
                            return Ok(Some(u64::MAX)); // reported elsewhere
                        }
                        if Instant::now() > until {
                            return Err(());
                        }
                    }
                }
                Ok(None)
            }));
            match r {
                Err(_) => {
                    fails.push(("C01", format!("{} panicked on a stream of bytes {:#x}", name, self.byte)));
                    return fails;
                }
                Ok(Err(())) => return fails,
                Ok(Ok(x)) => {
                    if x == Some(u64::MAX) {
                        fails.push(("C09", format!("find_chunk_edge keeps more than {} bytes of a stream of bytes {:#x}", self.window, self.byte)));
                        return fails;
                    }
                    if x != want && !(self.late && x.map(|x| x + 1) == want) {
                        for p in &self.props {
                            fails.push((*p, format!("stream of bytes {:#x} in pieces of {}: {} finds the first cut at {:?}, expected {:?}", self.byte, self.piece, name, x, want)));
                        }
                    }
                    seen.push(x);
                }
            }
        }
        if seen[0] != seen[1] {
            fails.push(("C04", format!("stream of bytes {:#x} in pieces of {}: push finds the first cut at {:?}, find_chunk_edge at {:?}", self.byte, self.piece, seen[0], seen[1])));
        }
        fails
    }
}
