//! Calls without a stream: range helpers, constructors, tables; and the known findings.
use crate::algs::{zave, ZRange};
use crate::gold;
use crate::rng::Rng;
use hash_roll::range::{bound_cloned, RangeExt};
use hash_roll::*;
use std::fmt::Debug;
use std::ops::{Bound, RangeBounds};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Fails = Vec<(&'static str, String)>;

fn under<T: PartialOrd>(b: Bound<&T>, x: &T) -> bool {
    match b {
        Bound::Included(i) => x < i,
        Bound::Excluded(i) => x < i || x == i,
        Bound::Unbounded => false,
    }
}
fn over<T: PartialOrd>(b: Bound<&T>, x: &T) -> bool {
    match b {
        Bound::Included(i) => x > i,
        Bound::Excluded(i) => x > i || x == i,
        Bound::Unbounded => false,
    }
}

fn range<T: PartialOrd + Copy + Debug, R: RangeBounds<T> + Clone>(f: &mut Fails, name: &str, r: R, items: &[T]) {
    let (lo, hi) = (r.start_bound(), r.end_bound());
    for x in items {
        let (u, o) = (under(lo, x), over(hi, x));
        let got = (RangeExt::under_min(&r, x), RangeExt::exceeds_max(&r, x), RangeExt::contains(&r, x));
        if got != (u, o, !u && !o) {
            f.push(("C20", format!("{} ({:?}, {:?}), item {:?}: (under_min, exceeds_max, contains) = {:?}, expected {:?}", name, lo, hi, x, got, (u, o, !u && !o))));
        }
    }
    let c = (bound_cloned(lo), bound_cloned(hi));
    let t = r.clone().into_tuple();
    for (n, t) in [("bound_cloned", c), ("into_tuple", t)] {
        let same = |a: Bound<T>, b: Bound<&T>| match (a, b) {
            (Bound::Included(a), Bound::Included(b)) | (Bound::Excluded(a), Bound::Excluded(b)) => a == *b,
            (Bound::Unbounded, Bound::Unbounded) => true,
            _ => false,
        };
        if !same(t.0, lo) || !same(t.1, hi) {
            f.push(("C20", format!("{} of {} ({:?}, {:?}) is {:?}", n, name, lo, hi, t)));
        }
    }
}

fn ranges(f: &mut Fails, rounds: u64) {
    let mut r = Rng::new(77);
    for k in 0..rounds {
        let m = if k % 3 == 0 { u64::MAX } else { 12 };
        let (a, b) = (r.below(m), r.below(m));
        let mut items: Vec<u64> = (0..6).map(|_| r.below(m)).collect();
        for x in [a, b] {
            items.extend_from_slice(&[x, x.wrapping_add(1), x.wrapping_sub(1)]);
        }
        items.extend_from_slice(&[0, u64::MAX]);
        range(f, "a..b", a..b, &items);
        range(f, "a..=b", a..=b, &items);
        range(f, "a..", a.., &items);
        range(f, "..b", ..b, &items);
        range(f, "..=b", ..=b, &items);
        range(f, "..", .., &items);
        for lo in [Bound::Included(a), Bound::Excluded(a), Bound::Unbounded] {
            for hi in [Bound::Included(b), Bound::Excluded(b), Bound::Unbounded] {
                range(f, "tuple", (lo, hi), &items);
            }
        }
        let si: Vec<i8> = items.iter().map(|x| *x as i8).collect();
        range(f, "i8 a..b", a as i8..b as i8, &si);
        range(f, "i8 a..=b", a as i8..=b as i8, &si);
        if f.len() > 20 {
            return;
        }
    }
    range(f, "f64", 0.5..2.5, &[0.0, 0.5, 1.0, 2.5, 3.0, -0.0]);
    range(f, "char", 'b'..='d', &['a', 'b', 'c', 'd', 'e']);
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct H;
impl buzhash::BuzHashHash for H {
    fn hash(&self, b: u8) -> u32 {
        b as u32
    }
}

/// instances of different parameters differ, copies do not
fn kept<P: PartialEq + Clone>(eq: &mut dyn FnMut(String, bool), what: &str, vals: &[u64], small: usize, make: impl Fn(u64) -> P)
where
    P: ToChunkIncr,
    P::Incr: MaybeEq,
{
    let ps: Vec<P> = vals.iter().map(|v| make(*v)).collect();
    for i in 0..ps.len() {
        eq(format!("{}: a copy of the instance for {} differs from it", what, vals[i]), ps[i].clone() == ps[i]);
        eq(format!("{}: two instances for {} differ", what, vals[i]), make(vals[i]) == ps[i]);
        for j in 0..i {
            if vals[i] != vals[j] {
                eq(format!("{}: the instances for {} and {} are equal", what, vals[i], vals[j]), ps[i] != ps[j]);
            }
        }
    }
    let is: Vec<P::Incr> = ps[..small].iter().map(|p| p.to_chunk_incr()).collect();
    for i in 0..is.len() {
        for j in 0..i {
            if vals[i] != vals[j] {
                eq(format!("{}: the incremental chunkers for {} and {} are equal", what, vals[i], vals[j]), !is[i].same(&is[j]));
            }
        }
    }
}

/// equality, where a chunker has it
trait MaybeEq {
    fn same(&self, _: &Self) -> bool {
        false
    }
}
macro_rules! has_eq {
    ($($t:ty),*) => { $(impl MaybeEq for $t { fn same(&self, o: &Self) -> bool { self == o } })* };
}
has_eq!(bup::RollSumIncr, ram::RamIncr, fastcdc::FastCdcIncr<'_>, buzhash::BuzHashIncr<H>, zstd::ZstdIncr);
impl MaybeEq for gzip::GzipRsyncableIncr {}
impl MaybeEq for pigz::PigzRsyncableIncr {}
impl MaybeEq for zpaq::ZpaqIncr {}

fn constructors(f: &mut Fails, rounds: u64) {
    use zpaq::Zpaq;
    let mut r = Rng::new(99);
    let mut eq = |name: String, a: bool| {
        if !a {
            f.push(("C21", name))
        }
    };
    for a in 10..=32u32 {
        eq(format!("Zpaq::with_average_size_pow_2({}) is not with_average_and_range({}, {}..={})", a, a, 64u64 << (a - 10), 8128u64 << (a - 10)), Zpaq::with_average_size_pow_2(a as u8) == Zpaq::with_average_and_range(a as u8, 64u64 << (a - 10)..=8128u64 << (a - 10)));
    }
    eq("Zpaq::default() is not with_average_size_pow_2(16)".into(), Zpaq::default() == Zpaq::with_average_and_range(16, 4096..=520192));
    for k in 0..rounds {
        let m = match k % 4 {
            0 => k / 4,
            1 => r.next() >> r.below(64),
            2 => 1u64 << (k / 4 % 64),
            _ => (1u64 << (k / 4 % 64)).wrapping_sub(1),
        };
        eq(format!("Zpaq::with_max_size({}) is not with_average_and_range({}, {}..={})", m, zave(m), m / 64, m), Zpaq::with_max_size(m) == Zpaq::with_average_and_range(zave(m) as u8, m / 64..=m));
        let a = r.below(m.min(1 << 57) + 1).min(1 << 57);
        for lo in [Bound::Included(a), Bound::Excluded(a), Bound::Unbounded] {
            for hi in [Bound::Included(m), Bound::Excluded(m), Bound::Unbounded] {
                let rg: ZRange = (lo, hi);
                let ave = match (lo, hi) {
                    (_, Bound::Included(m)) => zave(m),
                    (_, Bound::Excluded(0)) => continue,
                    (_, Bound::Excluded(m)) => zave(m - 1),
                    (Bound::Included(a), _) => zave(64 * a),
                    (Bound::Excluded(a), _) => zave(64 * (a + 1)),
                    _ => 16,
                };
                eq(format!("Zpaq::with_range({:?}) is not with_average_and_range({}, ..)", rg, ave), Zpaq::with_range(rg) == Zpaq::with_average_and_range(ave as u8, rg));
            }
        }
    }
    use bup::RollSum;
    eq("bup::RollSum::default() is not with_window(64)".into(), RollSum::default() == RollSum::with_window(64));
    use fastcdc::FastCdc;
    eq("FastCdc::default() is not new(&GEAR_64, 2048, 8192, 65536)".into(), FastCdc::default() == FastCdc::new(&gear_table::GEAR_64, 2048, 8192, 65536));
    use gzip::GzipRsyncable;
    eq("GzipRsyncable::default() is not with_window_and_modulus(8192, 4096)".into(), GzipRsyncable::default() == GzipRsyncable::with_window_and_modulus(8192, 4096));
    use pigz::PigzRsyncable;
    eq("PigzRsyncable::default() is not with_bits(12)".into(), PigzRsyncable::default() == PigzRsyncable::with_bits(12));
    use zstd::Zstd;
    eq("Zstd::default() is not with_target_section_size(8 MiB)".into(), Zstd::default() == Zstd::with_target_section_size(8 << 20));
    for k in 0..rounds {
        let mb = 1 + (r.next() & 0xffff_ffff) % (1 << (1 + k % 31));
        let low = r.below(1 << 20);
        let p = 1u64 << (63 - mb.leading_zeros());
        eq(format!("Zstd::with_target_section_size({}) is not that of {}", (mb << 20) + low, p << 20), Zstd::with_target_section_size((mb << 20) + low) == Zstd::with_target_section_size(p << 20));
        if mb > 1 {
            eq(format!("Zstd::with_target_section_size({}) is that of {}", mb << 20, (p << 20) / 2), Zstd::with_target_section_size(mb << 20) != Zstd::with_target_section_size((p << 20) / 2));
        }
    }
    // parameters are kept, also by copies and in incremental chunkers: two instances with different
    // parameters differ, an instance and its copy do not
    {
        let mut vals: Vec<u64> = vec![1, 2, 5, 63, 64, 255, 256, 1000, 32767, 65535, 65536, 1 << 20];
        let small = vals.len();
        for s in [24, 31, 32, 33, 48, 62] {
            vals.extend_from_slice(&[(1 << s) - 1, 1 << s, (1 << s) + 1]);
        }
        vals.extend_from_slice(&[(1 << 63) - 1, u64::MAX - 1]);
        for k in 0..rounds.min(60) {
            vals.push((r.next() >> (1 + k % 30)).max(2));
        }
        let table = &gear_table::GEAR_64;
        kept(&mut eq, "RollSum::with_window", &vals, small, |v| RollSum::with_window(v as usize));
        kept(&mut eq, "GzipRsyncable::with_window_and_modulus(_, 7)", &vals, small, |v| GzipRsyncable::with_window_and_modulus(v as usize, 7));
        kept(&mut eq, "GzipRsyncable::with_window_and_modulus(9, _)", &vals, vals.len(), |v| GzipRsyncable::with_window_and_modulus(9, v));
        kept(&mut eq, "Ram::with_w", &vals, vals.len(), ram::Ram::with_w);
        kept(&mut eq, "FastCdc::new(_, 0, 1, _)", &vals, vals.len(), |v| FastCdc::new(table, 0, 1, v + 1));
        kept(&mut eq, "FastCdc::new(_, 0, _, max)", &vals, vals.len(), |v| FastCdc::new(table, 0, v, u64::MAX));
        kept(&mut eq, "FastCdc::new(_, _, max, max)", &vals, vals.len(), |v| FastCdc::new(table, v, u64::MAX, u64::MAX));
        kept(&mut eq, "BuzHash::new(_, 255, h, 1 << 40)", &vals, small, |v| buzhash::BuzHash::new(v as usize, 255, H, 1 << 40));
        kept(&mut eq, "BuzHash::new(16, 255, h, _)", &vals, vals.len(), |v| buzhash::BuzHash::new(16, 255, H, v));
        let masks: Vec<u64> = (0..32).map(|s| 1 << s).chain((0..32).map(|_| r.next() & 0xffff_ffff)).collect();
        kept(&mut eq, "BuzHash::new(16, _, h, max)", &masks, masks.len(), |v| buzhash::BuzHash::new(16, v as u32, H, u64::MAX));
        let bits: Vec<u64> = (1..32).collect();
        kept(&mut eq, "PigzRsyncable::with_bits", &bits, 0, |v| PigzRsyncable::with_bits(v as u8));
        for b in &bits {
            let c = PigzRsyncable::with_bits(*b as u8);
            eq(format!("a copy of PigzRsyncable::with_bits({}) differs from it", b), c == c.clone());
        }
        let mbs: Vec<u64> = (0..32).map(|s| 1 << (20 + s)).collect();
        kept(&mut eq, "Zstd::with_target_section_size", &mbs, 0, Zstd::with_target_section_size);
        for v in &vals {
            for (lo, hi) in [(Bound::Included(*v), Bound::Unbounded), (Bound::Excluded(*v), Bound::Unbounded), (Bound::Unbounded, Bound::Included(*v)), (Bound::Unbounded, Bound::Excluded(*v))] {
                let c = Zpaq::with_average_and_range(20, (lo, hi));
                eq(format!("a copy of {:?} differs from it", c), c == c.clone());
            }
        }
        kept(&mut eq, "Zpaq::with_average_and_range(16, _..=max)", &vals, 0, |v| Zpaq::with_average_and_range(16, v..=u64::MAX));
        kept(&mut eq, "Zpaq::with_average_and_range(16, 0..=_)", &vals, 0, |v| Zpaq::with_average_and_range(16, 0..=v));
        kept(&mut eq, "Zpaq::with_average_and_range(16, 0.._)", &vals, 0, |v| Zpaq::with_average_and_range(16, 0..v));
    }
    // bup: state made without a stream
    {
        use bup::RollSumIncr;
        let (a, b) = (RollSumIncr::default(), RollSum::with_window(64).to_chunk_incr());
        eq("RollSumIncr::default() is not that of a 64 byte window".into(), a == b && a.digest() == b.digest());
    }
}

/// a chunker that reports the given cuts, whatever the data is
#[derive(Debug, Clone, PartialEq)]
struct Script(Vec<Option<usize>>, usize, Vec<usize>);
impl ChunkIncr for Script {
    fn push(&mut self, data: &[u8]) -> Option<usize> {
        let r = self.0.get(self.1).copied().flatten();
        self.1 += 1;
        self.2.push(data.len());
        r
    }
}

fn iterators(f: &mut Fails, rounds: u64) {
    let mut r = Rng::new(17);
    for _ in 0..rounds {
        let d: Vec<u8> = (0..r.below(12)).map(|_| r.byte()).collect();
        let (mut left, mut script) = (d.len() as u64, vec![]);
        for _ in 0..r.below(8) {
            let n = match r.below(4) {
                0 => 0,
                1 => left,
                _ => r.below(left + 1),
            };
            left -= n;
            script.push(Some(n as usize));
        }
        // iter_slices
        let (mut want, mut rem, mut seen) = (vec![], &d[..], vec![]);
        let mut cuts = script.iter().flatten();
        while !rem.is_empty() {
            seen.push(rem.len());
            let n = cuts.next().copied().unwrap_or(rem.len());
            want.push(&rem[..n]);
            rem = &rem[n..];
        }
        let mut it = Script(script.clone(), 0, vec![]).iter_slices(&d);
        let got: Vec<&[u8]> = it.by_ref().take(20).collect();
        let (c, rest) = it.into_parts();
        if got != want || !rest.is_empty() || c.2 != seen {
            f.push(("C05", format!("iter_slices over {:?}, where push reports {:?}: {:?}, expected {:?}; rest {:?}; pushed lengths {:?}, expected {:?}", d, script, got, want, rest, c.2, seen)));
            return;
        }
        // iter_slices_strict
        let (mut want, mut rem) = (vec![], &d[..]);
        for n in script.iter().flatten() {
            want.push(&rem[..*n]);
            rem = &rem[*n..];
        }
        let mut it = Script(script.clone(), 0, vec![]).iter_slices_strict(&d);
        let got: Vec<&[u8]> = it.by_ref().take(20).collect();
        let taking = r.below(2) == 0;
        let (taken, again) = if taking { (it.take_rem(), it.take_rem()) } else { (rem, &d[..0]) };
        let (c, rest) = it.into_parts();
        let left = if taking { &d[..0] } else { rem };
        let ok = got == want && taken == rem && again.is_empty() && rest == left && c.1 == want.len() + 1;
        if !ok {
            f.push(("C05", format!("iter_slices_strict over {:?}, where push reports {:?}: {:?}, expected {:?}; take_rem {:?} and {:?}, expected {:?}", d, script, got, want, taken, again, rem)));
            return;
        }
    }
}

fn rollsum(f: &mut Fails, rounds: u64) {
    let mut r = Rng::new(5);
    for _ in 0..rounds / 20 {
        let w = *r.pick(&[1usize, 2, 3, 5, 8, 13, 64, 65, 300]);
        let mut i = bup::RollSum::with_window(w).to_chunk_incr();
        let d: Vec<u8> = (0..r.below(3 * w as u64 + 5)).map(|_| r.byte()).collect();
        for n in 0..=d.len() {
            let (s1, s2) = crate::algs::bup_sums(w, &d[..n]);
            let dg = (s1 << 16) | (s2 & 0xffff);
            let want = (dg, s2 & 0x1fff == 0x1fff);
            let got = (i.digest(), i.at_split());
            if got != want {
                f.push(("C10", format!("window {}: after rolling {:02x?} (digest, at_split) = {:x?}, expected {:x?}", w, &d[..n], got, want)));
                return;
            }
            if n < d.len() {
                i.roll_byte(d[n]);
            }
        }
    }
}

fn tables(f: &mut Fails, rounds: u64) {
    fn cmp<T: PartialEq + std::fmt::LowerHex>(f: &mut Fails, name: &str, a: &[T; 256], b: &[T; 256]) {
        for i in 0..256 {
            if a[i] != b[i] {
                f.push(("C22", format!("{}[{}] is {:#x}, published value {:#x}", name, i, a[i], b[i])));
            }
        }
    }
    cmp(f, "GEAR_32", &gear_table::GEAR_32, &gold::GEAR_32);
    cmp(f, "GEAR_64", &gear_table::GEAR_64, &gold::GEAR_64);
    cmp(f, "GO_BUZHASH", &buzhash_table::GO_BUZHASH, &gold::GO_BUZHASH);
    let mut r = Rng::new(3);
    for k in 0..rounds / 10 + 34 {
        let s = match k {
            0 => 0,
            1 => u32::MAX,
            2..=33 => 1 << (k - 2),
            _ => r.next() as u32,
        };
        let t = buzhash_table::borg_buzhash_table(s);
        for i in 0..256 {
            if t[i] != gold::BORG_BUZHASH_BASE[i] ^ s {
                f.push(("C22", format!("borg_buzhash_table({:#x})[{}] is {:#x}, expected {:#x}", s, i, t[i], gold::BORG_BUZHASH_BASE[i] ^ s)));
                return;
            }
        }
    }
}

pub fn all(rounds: &u64) -> Fails {
    let mut f = vec![];
    for (p, g) in [("C20", ranges as fn(&mut Fails, u64)), ("C21", constructors), ("C05", iterators), ("C10", rollsum), ("C22", tables)] {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut v = vec![];
            g(&mut v, *rounds);
            v
        }));
        match r {
            Ok(v) => f.extend(v),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                f.push((p, format!("panicked: {}", m)));
                if p != "C20" {
                    f.push(("C01", format!("panicked: {}", m)));
                }
            }
        }
    }
    f
}

/// the known findings: (id, does it still fail, what is observed)
pub fn known() -> Vec<(&'static str, bool, String)> {
    let t = [0u64; 256];
    let mut out = vec![];
    let c = fastcdc::FastCdc::new(&t, 1, 2, 4);
    let a = c.find_chunk_edge(&mut c.to_search_state(), &[0, 0, 0]).0;
    let b = c.to_chunk_incr().push(&[0, 0, 0]);
    out.push(("C04", a == Some(2) && b == Some(1), format!("FastCdc::new(&[0; 256], 1, 2, 4) on [0, 0, 0]: find_chunk_edge {:?}, push {:?}", a, b)));
    let c = fastcdc::FastCdc::new(&t, 0, 2, 4);
    let mut i = c.to_chunk_incr();
    let a: Vec<Option<usize>> = (0..3).map(|_| i.push(&[0])).collect();
    out.push(("C03", a == vec![Some(0); 3], format!("FastCdc::new(&[0; 256], 0, 2, 4): pushing [0] and again what is after the cut: {:?}", a)));
    let n = c.to_chunk_incr().iter_slices(&[0]).take(100).count();
    out.push(("C05", n == 100, format!("FastCdc::new(&[0; 256], 0, 2, 4).to_chunk_incr().iter_slices(&[0]) yields {} slices and more", n)));
    out
}
