//! The algorithms of the library behind one object-safe interface, with configurations chosen so
//! that cuts are frequent, and an independent reference for where each one cuts.
use crate::rng::Rng;
use hash_roll::*;
use std::ops::{Bound, RangeBounds};

pub trait Inc {
    fn push(&mut self, d: &[u8]) -> Option<usize>;
}
pub trait Fce {
    fn find(&mut self, d: &[u8]) -> (Option<usize>, usize);
}
pub struct IterOut {
    pub slices: Vec<Vec<u8>>,
    pub ended: bool,
    pub rem: Vec<u8>,
    pub rem2: Vec<u8>,
    /// what the chunker handed back finds in `extra`
    pub after: Option<usize>,
}
pub trait Algo {
    fn incr<'a>(&'a self) -> Box<dyn Inc + 'a>;
    fn fce<'a>(&'a self) -> Box<dyn Fce + 'a>;
    fn slices(&self, d: &[u8], extra: &[u8]) -> IterOut;
    fn slices_strict(&self, d: &[u8], extra: &[u8], take: bool) -> IterOut;
}
struct I<C: ChunkIncr>(C);
impl<C: ChunkIncr> Inc for I<C> {
    fn push(&mut self, d: &[u8]) -> Option<usize> {
        self.0.push(d)
    }
}
struct F<'a, C: Chunk>(&'a C, C::SearchState);
impl<'a, C: Chunk> Fce for F<'a, C> {
    fn find(&mut self, d: &[u8]) -> (Option<usize>, usize) {
        self.0.find_chunk_edge(&mut self.1, d)
    }
}
pub struct G<C>(pub C);
impl<C> Algo for G<C>
where
    C: Chunk + ToChunkIncr,
    C::Incr: ChunkIncr,
{
    fn incr<'a>(&'a self) -> Box<dyn Inc + 'a> {
        Box::new(I(self.0.to_chunk_incr()))
    }
    fn fce<'a>(&'a self) -> Box<dyn Fce + 'a> {
        Box::new(F(&self.0, self.0.to_search_state()))
    }
    fn slices(&self, d: &[u8], extra: &[u8]) -> IterOut {
        let mut it = self.0.to_chunk_incr().iter_slices(d);
        let mut o = IterOut { slices: vec![], ended: false, rem: vec![], rem2: vec![], after: None };
        for _ in 0..2 * d.len() + 4 {
            match it.next() {
                Some(s) => o.slices.push(s.to_vec()),
                None => {
                    o.ended = true;
                    break;
                }
            }
        }
        if o.ended && it.next().is_some() {
            o.ended = false;
        }
        let (mut c, rem) = it.into_parts();
        o.rem = rem.to_vec();
        o.after = c.push(extra);
        o
    }
    fn slices_strict(&self, d: &[u8], extra: &[u8], take: bool) -> IterOut {
        let mut it = self.0.to_chunk_incr().iter_slices_strict(d);
        let mut o = IterOut { slices: vec![], ended: false, rem: vec![], rem2: vec![], after: None };
        for _ in 0..2 * d.len() + 4 {
            match it.next() {
                Some(s) => o.slices.push(s.to_vec()),
                None => {
                    o.ended = true;
                    break;
                }
            }
        }
        if take {
            o.rem = it.take_rem().to_vec();
            o.rem2 = it.take_rem().to_vec();
            let (mut c, r) = it.into_parts();
            o.rem2.extend_from_slice(r);
            o.after = c.push(extra);
        } else {
            let (mut c, r) = it.into_parts();
            o.rem = r.to_vec();
            o.after = c.push(extra);
        }
        o
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cut {
    pub end: usize,
    /// by the hash (not by a size limit)
    pub matched: bool,
}

pub type First = Box<dyn Fn(&[u8]) -> Option<Cut>>;
pub struct Case {
    pub alg: &'static str,
    pub prop: &'static str,
    pub desc: String,
    pub algo: Box<dyn Algo>,
    /// first cut of a chunk that starts with the data (zstd: `zstd_mask` instead)
    pub first: First,
    pub zstd_mask: Option<u64>,
    /// look-back window, and whether exactly that much is kept
    pub window: usize,
    /// a cut chunk of this length is allowed
    pub cut_ok: Box<dyn Fn(usize) -> bool>,
    /// an uncut rest of this length is allowed
    pub rest_ok: Box<dyn Fn(usize) -> bool>,
    pub has_limits: bool,
    /// incremental interface reports the matching byte (FastCDC)
    pub late: bool,
    /// min_size 0: the incremental interface is excluded (known finding)
    pub no_incr: bool,
    /// byte sequences that make hits likely
    pub hints: Vec<Vec<u8>>,
    /// interesting lengths
    pub lens: Vec<usize>,
    /// typical chunk length (log2), to size streams
    pub rare: u32,
}

impl Case {
    /// all cuts of `d`
    pub fn reference(&self, d: &[u8]) -> Vec<Cut> {
        let mut out = vec![];
        if let Some(mask) = self.zstd_mask {
            for e in 33..=d.len() {
                let mut h = 0u64;
                for &b in &d[e - 32..e] {
                    h = h.wrapping_mul(ZPRIME).wrapping_add(b as u64 + 10);
                }
                if h & mask == mask {
                    out.push(Cut { end: e, matched: true });
                }
            }
            return out;
        }
        let mut s = 0;
        while let Some(c) = (self.first)(&d[s..]) {
            s += c.end;
            out.push(Cut { end: s, matched: c.matched });
        }
        out
    }
    /// the positions the incremental interface reports
    pub fn reference_incr(&self, d: &[u8]) -> Vec<usize> {
        if !self.late {
            return self.reference(d).iter().map(|c| c.end).collect();
        }
        let mut out = vec![];
        let mut s = 0;
        while let Some(c) = (self.first)(&d[s..]) {
            s += c.end - c.matched as usize;
            out.push(s);
        }
        out
    }
}

/// numbers that are new in the source (parameters, lengths and bytes worth trying)
pub static DICT: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
pub fn dict() -> &'static [u64] {
    DICT.get().map_or(&[], |v| &v[..])
}
/// one of `list`, or near a number of the dictionary
fn par(r: &mut Rng, list: &[u64], lo: u64, hi: u64) -> u64 {
    if !dict().is_empty() && r.below(3) == 0 {
        let x = r.pick(dict()).wrapping_add(r.below(3)).wrapping_sub(1);
        if lo <= x && x <= hi {
            return x;
        }
    }
    *r.pick(list)
}

pub const ZPRIME: u64 = 0xCF1BBCDCB7A56463;
pub const ALGS: &[&str] = &["bup", "buzhash", "fastcdc", "gear", "gzip", "mii", "pigz", "ram", "zpaq", "zstd"];

fn base(alg: &'static str, prop: &'static str, desc: String, algo: Box<dyn Algo>, first: First) -> Case {
    Case {
        alg,
        prop,
        desc,
        algo,
        first,
        zstd_mask: None,
        window: 0,
        cut_ok: Box::new(|_| true),
        rest_ok: Box::new(|_| true),
        has_limits: false,
        late: false,
        no_incr: false,
        hints: vec![],
        lens: vec![],
        rare: 3,
    }
}

pub fn make(alg: &str, seed: u64) -> Case {
    let mut r = Rng::new(seed ^ 0x5eed_0000);
    let mut c = make_(alg, seed, &mut r);
    c.lens.extend(dict().iter().filter(|d| **d <= 1 << 20).map(|d| *d as usize));
    c
}

fn make_(alg: &str, seed: u64, r: &mut Rng) -> Case {
    match alg {
        "bup" => bup(r, seed),
        "buzhash" => buzhash(r, seed),
        "fastcdc" => fastcdc(r, seed),
        "gear" => gear(r, seed),
        "gzip" => gzip(r, seed),
        "mii" => mii(r, seed),
        "pigz" => pigz(r, seed),
        "ram" => ram(r, seed),
        "zpaq" => zpaq(r, seed),
        "zstd" => zstd(r, seed),
        x => panic!("unknown algorithm {}", x),
    }
}

/// rolling checksum of bup after `d` at the start of a chunk, straight from its definition: every
/// byte adds (byte + 31) for each position it is in the window
pub fn bup_sums(w: usize, d: &[u8]) -> (u32, u32) {
    let ww = w as u32;
    let (mut s1, mut s2) = (ww.wrapping_mul(31), ww.wrapping_mul(31).wrapping_mul(ww.wrapping_sub(1)));
    for i in 0..d.len() {
        let old = if i >= w { d[i - w] as u32 } else { 0 };
        s1 = s1.wrapping_add(d[i] as u32).wrapping_sub(old);
        s2 = s2.wrapping_add(s1).wrapping_sub(ww.wrapping_mul(old + 31));
    }
    (s1, s2)
}

fn bup(r: &mut Rng, seed: u64) -> Case {
    use hash_roll::bup::RollSum;
    let w = match seed % 5 {
        0 => 64,
        _ => par(r, &[1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 32, 33, 48, 63, 64, 65, 100, 128, 200, 257, 65536, 65537], 1, 1 << 18) as usize,
    };
    let algo = if seed % 5 == 0 && seed % 2 == 0 { RollSum::default() } else { RollSum::with_window(w) };
    let first = move |d: &[u8]| {
        let ww = w as u32;
        let (mut s1, mut s2) = (ww.wrapping_mul(31), ww.wrapping_mul(31).wrapping_mul(ww.wrapping_sub(1)));
        for i in 0..d.len() {
            let old = if i >= w { d[i - w] as u32 } else { 0 };
            s1 = s1.wrapping_add(d[i] as u32).wrapping_sub(old);
            s2 = s2.wrapping_add(s1).wrapping_sub(ww.wrapping_mul(old + 31));
            if s2 & 0x1fff == 0x1fff {
                return Some(Cut { end: i + 1, matched: true });
            }
        }
        None
    };
    // whole chunks that end in a hit, found by searching for a last byte or two
    let mut hints = vec![];
    for _ in 0..6 {
        let n = match r.below(4) {
            0 => r.below(4) as usize,
            1 => (w.min(300)) + r.below(4) as usize,
            2 => r.below(w.min(300) as u64 + 2) as usize,
            _ => r.below(3 * w.min(100) as u64 + 5) as usize,
        };
        let a = *r.pick(&[2u64, 16, 256]);
        'search: for _ in 0..40 {
            let mut p: Vec<u8> = (0..n).map(|_| if a == 256 { r.byte() } else { (r.below(a) * 255 / (a - 1)) as u8 }).collect();
            if first(&p).is_some() {
                continue;
            }
            // two free bytes
            for x in 0..=255u8 {
                p.push(x);
                if first(&p).is_some() {
                    hints.push(p);
                    break 'search;
                }
                // second byte solved for
                let (s1, s2) = bup_sums(w, &p);
                let i = p.len();
                let old = if i >= w { p[i - w] as u32 } else { 0 };
                for y in 0..=255u32 {
                    let t1 = s1.wrapping_add(y).wrapping_sub(old);
                    let t2 = s2.wrapping_add(t1).wrapping_sub((w as u32).wrapping_mul(old + 31));
                    if t2 & 0x1fff == 0x1fff {
                        p.push(y as u8);
                        hints.push(p);
                        break 'search;
                    }
                }
                p.pop();
            }
        }
    }
    let mut c = base("bup", "C10", format!("RollSum::with_window({})", w), Box::new(G(algo)), Box::new(first));
    c.window = w;
    c.hints = hints;
    c.lens = vec![w - 1, w, w + 1, 2 * w];
    c.rare = 13;
    c
}

#[derive(Clone)]
struct MulHash(u32);
impl hash_roll::buzhash::BuzHashHash for MulHash {
    fn hash(&self, d: u8) -> u32 {
        (d as u32 + 1).wrapping_mul(self.0)
    }
}

fn buzhash(r: &mut Rng, seed: u64) -> Case {
    use hash_roll::buzhash::*;
    use hash_roll::buzhash_table::*;
    let nom = seed % 7 == 0;
    let k = if nom { 67 } else { par(r, &[1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 67, 96, 127, 255, 256, 257, 300, 513, 65535, 65536, 65537], 1, 1 << 17) as usize };
    let mask: u32 = if nom { 0xfff } else { par(r, &[0, 1, 0xf, 0x1f, 0xff, 0x8000_0001, 0xfff, 0xff00, 0xffff_ffff], 0, 0xffff_ffff) as u32 };
    let max: u64 = if nom {
        1 << 24
    } else {
        match r.below(7) {
            0 => r.below(4),
            1 => r.below(40),
            2 => k as u64 + r.below(3),
            3 => (k as u64).saturating_sub(1),
            4 => { let x = 200 + r.below(200); par(r, &[x], 0, u64::MAX) }
            5 => *r.pick(&[u64::MAX, 65535, 65537, 65600, (1 << 32) + 20, (1 << 32) + 400, (1 << 33) + 3]),
            _ => 1 << 24,
        }
    };
    let salt = r.byte();
    let hk = r.below(4);
    let table: &'static [u32; 256] = if nom || r.below(2) == 0 { Box::leak(Box::new(GO_BUZHASH)) } else { Box::leak(borg_buzhash_table(r.next() as u32)) };
    let mul = r.next() as u32 | 1;
    let (algo, desc, hash): (Box<dyn Algo>, String, Box<dyn Fn(u8) -> u32>) = if nom {
        (Box::new(G(BuzHash::new_nom(salt))), format!("BuzHash::new_nom({})", salt), Box::new(move |b| crate::gold::GO_BUZHASH[(b ^ salt) as usize]))
    } else if hk == 0 {
        (Box::new(G(BuzHash::new(k, mask, BuzHashTableHash::from(table), max))), format!("BuzHash::new({}, {:#x}, table, {})", k, mask, max), Box::new(move |b| table[b as usize]))
    } else if hk == 1 {
        (
            Box::new(G(BuzHash::new(k, mask, BuzHashTableBufHash::from(Box::new(*table)), max))),
            format!("BuzHash::new({}, {:#x}, boxed table, {})", k, mask, max),
            Box::new(move |b| table[b as usize]),
        )
    } else if hk == 2 {
        (
            Box::new(G(BuzHash::new(k, mask, BuzHashTableByteSaltHash::from((salt, table)), max))),
            format!("BuzHash::new({}, {:#x}, table with salt {}, {})", k, mask, salt, max),
            Box::new(move |b| table[(b ^ salt) as usize]),
        )
    } else {
        (Box::new(G(BuzHash::new(k, mask, MulHash(mul), max))), format!("BuzHash::new({}, {:#x}, |b| (b + 1) * {}, {})", k, mask, mul, max), Box::new(move |b| (b as u32 + 1).wrapping_mul(mul)))
    };
    let first = move |d: &[u8]| {
        let mut h = 0u32;
        for i in 0..d.len() {
            if k <= 100 {
                // from scratch
                h = 0;
                for &b in &d[(i + 1).saturating_sub(k)..=i] {
                    h = h.rotate_left(1) ^ hash(b);
                }
            } else {
                h = h.rotate_left(1) ^ hash(d[i]);
                if i >= k {
                    h ^= hash(d[i - k]).rotate_left(k as u32 % 32);
                }
            }
            let m = h & mask == mask;
            if m || (i + 1) as u64 > max {
                return Some(Cut { end: i + 1, matched: m });
            }
        }
        None
    };
    let mut c = base("buzhash", "C11", desc, algo, Box::new(first));
    c.window = k;
    c.cut_ok = Box::new(move |n| n as u64 <= max.saturating_add(1));
    c.rest_ok = Box::new(move |n| n as u64 <= max);
    c.has_limits = true;
    c.lens = vec![k - 1, k, k + 1, 2 * k, (max.min(1000)) as usize, (max.min(1000)) as usize + 1, (max.min(1000)) as usize + 2];
    c.rare = mask.count_ones().min(12);
    c
}

fn fastcdc(r: &mut Rng, seed: u64) -> Case {
    use hash_roll::fastcdc::*;
    let default = seed % 6 == 0;
    let no_incr = seed % 11 == 1;
    let (min, normal, max): (u64, u64, u64) = if default {
        (2048, 8192, 65536)
    } else {
        let max = par(r, &[1, 2, 3, 4, 5, 8, 16, 17, 33, 100, 255, 256, 257, 300, 1000, 65535, 65536, 65537, 70000], 1, 1 << 20);
        let min = if max == 1 || no_incr { 0 } else { match r.below(4) { 0 => 1, 1 => max - 1, _ => { let x = 1 + r.below(max - 1); par(r, &[x], 1, max - 1) } } };
        let normal = match r.below(6) {
            0 => min,
            1 => max,
            2 => 0,
            _ => { let x = min + r.below(max - min + 1); par(r, &[x], 0, max) }
        };
        (min, normal, max)
    };
    let mut table = [0u64; 256];
    let style = r.below(4);
    for t in table.iter_mut() {
        *t = match style {
            0 => r.next(),
            1 => if r.below(3) == 0 { 1 << r.below(64) } else { 0 },
            2 => if r.below(20) == 0 { r.next() } else { 0 },
            _ => r.next() & !if r.below(2) == 0 { 0x0003590703530000 } else { 0x0000d90003530000 },
        };
    }
    let builtin = default || r.below(5) == 0;
    let table: &'static [u64; 256] = Box::leak(Box::new(if builtin { crate::gold::GEAR_64 } else { table }));
    let algo = if default {
        FastCdc::default()
    } else if builtin {
        FastCdc::new(&hash_roll::gear_table::GEAR_64, min, normal, max)
    } else {
        FastCdc::new(table, min, normal, max)
    };
    let desc = format!("FastCdc::new({}, {}, {}, {})", if builtin { "&GEAR_64" } else { "table" }, min, normal, max);
    let first = move |d: &[u8]| {
        let mut fp = 0u64;
        for i in 0..d.len() {
            let mut m = false;
            if i as u64 >= min {
                fp = fp.wrapping_mul(2).wrapping_add(table[d[i] as usize]);
                m = fp & (if (i as u64) < normal { 0x0003590703530000 } else { 0x0000d90003530000 }) == 0;
            }
            if m || (i + 1) as u64 >= max {
                return Some(Cut { end: i + 1, matched: m });
            }
        }
        None
    };
    let mut hints = vec![];
    if default {
        // bytes that match at an arbitrary position: fill, then search a tail
        for _ in 0..3 {
            let n = (min + r.below(3)) as usize + match r.below(3) { 0 => 0, 1 => r.below(200) as usize, _ => (normal - min) as usize + r.below(5) as usize };
            for _ in 0..30 {
                let mut p: Vec<u8> = (0..n).map(|_| r.byte()).collect();
                if first(&p).is_none() {
                    for _ in 0..100 {
                        p.push(r.byte());
                        if first(&p).is_some() {
                            break;
                        }
                    }
                }
                if first(&p).map_or(false, |c| c.end == p.len()) {
                    hints.push(p);
                    break;
                }
            }
        }
    }
    let mut c = base("fastcdc", "C12", desc, Box::new(G(algo)), Box::new(first));
    c.cut_ok = Box::new(move |n| min <= n as u64 && n as u64 <= max);
    c.rest_ok = Box::new(move |n| (n as u64) < max);
    c.has_limits = true;
    c.late = true;
    c.no_incr = min == 0;
    c.hints = hints;
    c.lens = vec![min as usize, min as usize + 1, normal as usize, normal as usize + 1, max as usize, max as usize + 1, 2 * max as usize];
    c.rare = if default { 13 } else { (64 - max.leading_zeros()).min(10) };
    c
}

fn gear(r: &mut Rng, seed: u64) -> Case {
    use hash_roll::gear::*;
    let n = match seed % 4 {
        0 => 13,
        1 => 1 + (seed as usize / 4) % 31,
        _ => 1 + r.below(6) as usize,
    };
    let algo = if n == 13 && r.below(2) == 0 { Gear32::default() } else { Gear32::with_average_size_log2(n) };
    let table = &crate::gold::GEAR_32;
    let first = move |d: &[u8]| {
        let mut fp = 0u32;
        for i in 0..d.len() {
            fp = (fp << 1).wrapping_add(table[d[i] as usize]);
            if fp >> (32 - n) == 0 {
                return Some(Cut { end: i + 1, matched: true });
            }
        }
        None
    };
    let mut hints = vec![];
    if n > 8 {
        // search a short tail whose top bits become zero
        for _ in 0..4 {
            let m = r.below(40) as usize;
            let mut p: Vec<u8> = (0..m).map(|_| r.byte()).collect();
            if first(&p).is_some() {
                continue;
            }
            let mut found = false;
            for _ in 0..300 {
                let x = r.byte();
                p.push(x);
                for y in 0..=255 {
                    p.push(y);
                    if first(&p).map_or(false, |c| c.end == p.len()) {
                        found = true;
                        break;
                    }
                    p.pop();
                }
                if found {
                    break;
                }
                p.pop();
            }
            if found {
                hints.push(p);
            }
        }
    }
    let mut c = base("gear", "C13", format!("Gear32::with_average_size_log2({})", n), Box::new(G(algo)), Box::new(first));
    c.hints = hints;
    c.rare = n.min(13) as u32;
    c
}

fn gzip(r: &mut Rng, seed: u64) -> Case {
    use hash_roll::gzip::*;
    let (w, m) = match seed % 5 {
        0 => (8192usize, 4096u64),
        _ => (
            par(r, &[1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 64, 100, 255, 256, 257, 300, 65536, 65537], 1, 1 << 18) as usize,
            par(r, &[1, 2, 3, 4, 5, 7, 11, 16, 37, 64, 100, 251, 256, 1000, 4096, 65537, (1 << 32) + 300, (1 << 32) + 16, (1 << 33) + 1, u64::MAX], 1, u64::MAX),
        ),
    };
    let algo = if seed % 10 == 0 { GzipRsyncable::default() } else { GzipRsyncable::with_window_and_modulus(w, m) };
    let first = move |d: &[u8]| {
        let mut pre = Vec::with_capacity(d.len() + 1);
        pre.push(0u64);
        for i in 0..d.len() {
            pre.push(pre[i] + d[i] as u64);
            let s = pre[i + 1] - pre[(i + 1).saturating_sub(w)];
            if s % m == 0 {
                return Some(Cut { end: i + 1, matched: true });
            }
        }
        None
    };
    let mut c = base("gzip", "C14", format!("GzipRsyncable::with_window_and_modulus({}, {})", w, m), Box::new(G(algo)), Box::new(first));
    c.window = w;
    c.lens = vec![w - 1, w, w + 1, 2 * w];
    c.rare = (64 - m.leading_zeros()).min(12);
    c
}

fn mii(r: &mut Rng, seed: u64) -> Case {
    use hash_roll::mii::*;
    let w = match seed % 4 {
        0 => 5,
        _ => par(r, &[1, 2, 3, 4, 5, 6, 7, 10, 100, 254, 255, 256, 257, 261, 65540, (1 << 32) + 4, (1 << 33) + 1, u64::MAX], 1, u64::MAX),
    };
    let algo = if seed % 8 == 0 { Mii::default() } else { Mii::with_w(w) };
    let first = move |d: &[u8]| {
        let mut run = 0u64;
        for i in 1..d.len() {
            run = if d[i] > d[i - 1] { run + 1 } else { 0 };
            if run == w {
                return Some(Cut { end: i + 1, matched: true });
            }
        }
        None
    };
    let mut c = base("mii", "C15", format!("Mii::with_w({})", w), Box::new(G(algo)), Box::new(first));
    c.cut_ok = Box::new(move |n| n as u64 > w);
    c.has_limits = true;
    c.lens = vec![w.min(300) as usize, w.min(300) as usize + 1];
    let n = (w.min(255)) as usize;
    c.hints = vec![(0..=n).map(|i| i as u8).collect(), (0..=n).map(|i| (255 - n + i) as u8).collect(), vec![0xff, 0, 0xff], vec![0xfe, 0xff]];
    c.rare = w.min(10) as u32;
    c
}

fn pigz(r: &mut Rng, seed: u64) -> Case {
    use hash_roll::pigz::*;
    let bits = match seed % 4 {
        0 => 12,
        1 => (seed / 4 % 32) as u32,
        _ => r.below(9) as u32,
    };
    let algo = if seed % 8 == 0 { PigzRsyncable::default() } else { PigzRsyncable::with_bits(bits as u8) };
    let mask = ((1u64 << bits) - 1) as u32;
    let first = move |d: &[u8]| {
        let mut h = (mask >> 1) as u64;
        for i in 0..d.len() {
            h = ((h * 2) ^ d[i] as u64) & mask as u64;
            if h == (mask >> 1) as u64 {
                return Some(Cut { end: i + 1, matched: true });
            }
        }
        None
    };
    let mut hints = vec![];
    if bits > 8 {
        // the last 8 bits of the hash can be chosen: bits zero bytes shift everything else out
        for _ in 0..4 {
            let n = r.below(60) as usize;
            let mut p: Vec<u8> = (0..n).map(|_| r.byte()).collect();
            let mut h = (mask >> 1) as u64;
            for &b in &p {
                h = ((h << 1) ^ b as u64) & mask as u64;
            }
            // steer bit by bit: before step j from the end the top bits have to be right
            for left in (0..bits + 4).rev() {
                // wanted value of h after this byte, shifted: (h_final >> left)
                let want = (((mask >> 1) as u64) >> left) & (mask as u64 >> left);
                let pre = (h << 1) & mask as u64;
                // choose the low bits of h after this byte to be `want`'s
                let b = ((pre ^ want) & 0xff) as u8;
                h = (pre ^ b as u64) & mask as u64;
                p.push(b);
                if first(&p).is_some() {
                    break;
                }
            }
            if first(&p).is_some() {
                hints.push(p);
            }
        }
    }
    let mut c = base("pigz", "C16", format!("PigzRsyncable::with_bits({})", bits), Box::new(G(algo)), Box::new(first));
    c.hints = hints;
    c.rare = bits.min(12);
    c.lens = vec![bits as usize, bits as usize + 1];
    c
}

fn ram(r: &mut Rng, seed: u64) -> Case {
    use hash_roll::ram::*;
    let w = par(r, &[0, 1, 2, 3, 4, 5, 7, 10, 50, 255, 256, 257, 300, 65535, 65536, 65540, (1 << 32) + 3, (1 << 33) + 1, u64::MAX], 0, u64::MAX);
    let _ = seed;
    let first = move |d: &[u8]| {
        let mut top = 0u8;
        for i in 0..d.len() {
            if i as u64 > w && d[i] >= top {
                return Some(Cut { end: i + 1, matched: true });
            }
            top = top.max(d[i]);
        }
        None
    };
    let mut c = base("ram", "C17", format!("Ram::with_w({})", w), Box::new(G(Ram::with_w(w))), Box::new(first));
    c.cut_ok = Box::new(move |n| n as u64 > w);
    c.has_limits = true;
    c.lens = vec![w.min(70000) as usize, w.min(70000) as usize + 1, w.min(70000) as usize + 2];
    c.rare = 5;
    c
}

pub type ZRange = (Bound<u64>, Bound<u64>);

pub fn zmin(r: &ZRange, n: u64) -> bool {
    match r.0 {
        Bound::Included(m) => n >= m,
        Bound::Excluded(m) => n > m,
        Bound::Unbounded => true,
    }
}
pub fn zmax(r: &ZRange, n: u64) -> bool {
    match r.1 {
        Bound::Included(m) => n <= m,
        Bound::Excluded(m) => n < m,
        Bound::Unbounded => true,
    }
}

/// log2 of the average for a maximum
pub fn zave(max: u64) -> u32 {
    let m = (max / 4).max(2);
    let mut a = 1;
    while a < 32 && m >> (a + 1) != 0 {
        a += 1;
    }
    a
}

pub fn zfirst(ave: u32, rg: ZRange) -> First {
    Box::new(move |d: &[u8]| {
        let mut pred = [0u8; 256];
        let (mut h, mut last) = (0u32, 0u8);
        for i in 0..d.len() {
            let b = d[i];
            let m: u64 = if pred[last as usize] == b { 314159265 } else { 271828182 };
            h = (((h as u64 + b as u64 + 1) % (1 << 32)) * m % (1 << 32)) as u32;
            pred[last as usize] = b;
            last = b;
            let n = (i + 1) as u64;
            let hit = (h as u64) < (1u64 << (32 - ave)) && zmin(&rg, n);
            if hit || !zmax(&rg, n + 1) {
                return Some(Cut { end: i + 1, matched: hit });
            }
        }
        None
    })
}

fn zpaq(r: &mut Rng, seed: u64) -> Case {
    use hash_roll::zpaq::*;
    let (algo, desc, ave, rg): (Zpaq, String, u32, ZRange) = match seed % 10 {
        0 => (Zpaq::default(), "Zpaq::default()".into(), 16, (Bound::Included(4096), Bound::Included(520192))),
        1 => {
            let a = 10 + r.below(4) as u32;
            (Zpaq::with_average_size_pow_2(a as u8), format!("Zpaq::with_average_size_pow_2({})", a), a, (Bound::Included(64 << (a - 10)), Bound::Included(8128 << (a - 10))))
        }
        2 => {
            let m = match r.below(4) { 0 => r.below(64), 1 => r.below(3000), 2 => (1 << (16 * r.below(3))) + r.below(200), _ => 1 << r.below(16) };
            let m = par(r, &[m], 0, u64::MAX);
            (Zpaq::with_max_size(m), format!("Zpaq::with_max_size({})", m), zave(m), (Bound::Included(m / 64), Bound::Included(m)))
        }
        k => {
            let a = 1 + r.below(10);
            let a = par(r, &[a], 1, 1 << 56);
            let span = if r.below(2) == 0 { 6 } else { 400 };
            let b = a + r.below(span);
            let lo = match r.below(3) { 0 => Bound::Included(a), 1 => Bound::Excluded(a), _ => Bound::Unbounded };
            let hi = match r.below(4) { 0 | 1 => Bound::Included(b), 2 => Bound::Excluded(b + 1), _ => Bound::Unbounded };
            let rg = (lo, hi);
            if k == 3 {
                let top = match hi {
                    Bound::Included(m) => m,
                    Bound::Excluded(m) => m - 1,
                    Bound::Unbounded => match lo { Bound::Included(m) => 64 * m, Bound::Excluded(m) => 64 * (m + 1), Bound::Unbounded => 0x4_0000 },
                };
                (Zpaq::with_range(rg), format!("Zpaq::with_range({:?})", rg), zave(top), rg)
            } else {
                let ave = match r.below(8) { 0 => 1 + r.below(32), _ => 1 + r.below(7) } as u32;
                (Zpaq::with_average_and_range(ave as u8, rg), format!("Zpaq::with_average_and_range({}, {:?})", ave, rg), ave, rg)
            }
        }
    };
    let mut c = base("zpaq", "C18", desc, Box::new(G(algo)), zfirst(ave, rg));
    let some = (1..2000).any(|k| zmin(&rg, k) && zmax(&rg, k));
    let lo = match rg.start_bound() { Bound::Included(a) | Bound::Excluded(a) => *a as usize, _ => 3 };
    let hi = match rg.end_bound() { Bound::Included(a) | Bound::Excluded(a) => *a as usize, _ => 50 };
    c.cut_ok = Box::new(move |n| !some && n <= 2000 || zmin(&rg, n as u64) && zmax(&rg, n as u64));
    c.rest_ok = Box::new(move |n| n == 0 || zmax(&rg, n as u64 + 1));
    c.has_limits = true;
    c.lens = vec![lo, lo + 1, hi.min(100000).saturating_sub(1), hi.min(100000), hi.min(100000) + 1];
    c.rare = ave.min(16);
    c
}

/// windows of 32 bytes whose hash has the low 26 bits (or fewer) set
pub fn zstd_hits(bits: u32, r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    // the last bytes can be solved for: h = base * P^2 + (x+10) * P + (y+10); search x, y and z
    let mask = (1u64 << bits) - 1;
    let mut out = vec![];
    let style = r.below(3);
    while out.len() < n {
        let mut p: Vec<u8> = (0..28).map(|_| match style { 0 => r.byte(), 1 => r.below(2) as u8, _ => 0xff - r.below(3) as u8 }).collect();
        let mut h = 0u64;
        for &b in &p {
            h = h.wrapping_mul(ZPRIME).wrapping_add(b as u64 + 10);
        }
        // last byte y must satisfy (g * P + y + 10) & mask == mask, so search three bytes
        'o: for x in 0..=255u64 {
            let hx = h.wrapping_mul(ZPRIME).wrapping_add(x + 10);
            for y in 0..=255u64 {
                let hy = hx.wrapping_mul(ZPRIME).wrapping_add(y + 10);
                for z in 0..=255u64 {
                    let g = hy.wrapping_mul(ZPRIME).wrapping_add(z + 10).wrapping_mul(ZPRIME).wrapping_add(10);
                    let need = mask.wrapping_sub(g) & mask;
                    if need < 256 {
                        p.extend_from_slice(&[x as u8, y as u8, z as u8, need as u8]);
                        out.push(p.clone());
                        break 'o;
                    }
                }
            }
        }
    }
    out
}

fn zstd(r: &mut Rng, seed: u64) -> Case {
    use hash_roll::zstd::*;
    let mb: u64 = match seed % 5 {
        0 => 8,
        1 => par(r, &[1, 2, 3, 4, 5, 7, 9, 15, 16, 17, 63, 64, 100], 1, 127),
        // no cut is met by chance any more: one that shows up is wrong
        2 if seed % 3 == 0 => 1 << (7 + r.below(25)),
        _ => 1 + r.below(8),
    };
    let bits = 63 - mb.leading_zeros() + 20;
    let target = (mb << 20) + r.below(1 << 20);
    let algo = if seed % 10 == 0 { Zstd::default() } else { Zstd::with_target_section_size(target) };
    let hits = zstd_hits(bits.min(26), r, 3);
    let mut c = base("zstd", "C19", if seed % 10 == 0 { "Zstd::default()".into() } else { format!("Zstd::with_target_section_size({})", target) }, Box::new(G(algo)), Box::new(|_| None));
    c.zstd_mask = Some((1 << bits) - 1);
    c.window = 32;
    c.lens = vec![31, 32, 33, 64];
    let mut hints = hits.clone();
    // overlapping repetitions of a hit, a hit straddled by pieces of another
    for h in &hits {
        hints.push([&h[..], &h[..]].concat());
        hints.push([&h[16..], &h[..]].concat());
    }
    c.hints = hints;
    c.rare = 13;
    c
}
