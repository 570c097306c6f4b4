//! The contracts assumed of std functions (contracts/prelude.rs, `assume_specification`), checked
//! against std's own code by Kani/CBMC: for all values, no loop bound involved, except wrapping_pow
//! (the one base the library uses, every exponent up to 64). Run by `check.py --thorough`.

fn rotl(x: u32, n: u32) -> u32 {
    if n == 0 { x } else { (x << n) | (x >> (32 - n)) }
}

#[kani::proof]
fn rotate_left() {
    let (x, n): (u32, u32) = (kani::any(), kani::any());
    assert!(x.rotate_left(n) == rotl(x, n % 32));
}

#[kani::proof]
fn min_max() {
    let (a, b): (u64, u64) = (kani::any(), kani::any());
    assert!(std::cmp::min(a, b) == if a > b { b } else { a });
    assert!(std::cmp::max(a, b) == if a > b { a } else { b });
    let (a, b): (usize, usize) = (kani::any(), kani::any());
    assert!(std::cmp::min(a, b) == if a > b { b } else { a });
    assert!(std::cmp::max(a, b) == if a > b { a } else { b });
}

#[kani::proof]
#[kani::unwind(66)]
fn wrapping_pow() {
    const P: u64 = 0xCF1BBCDCB7A56463;
    let mut want: u64 = 1;
    let mut e = 0;
    while e <= 64 {
        assert!(P.wrapping_pow(e) == want);
        want = ((want as u128 * P as u128) % (1u128 << 64)) as u64;
        e += 1;
    }
}

/// The bounds of the range types `RangeBounds` is implemented for are what they were made of, and a
/// clone of a range has the same bounds.
#[kani::proof]
fn ranges() {
    use std::ops::{Bound, RangeBounds};
    let (a, b): (u64, u64) = (kani::any(), kani::any());
    fn same<R: RangeBounds<u64> + Clone>(r: R, lo: Bound<u64>, hi: Bound<u64>) {
        let c = r.clone();
        assert!(r.start_bound().cloned() == lo && r.end_bound().cloned() == hi);
        assert!(c.start_bound().cloned() == lo && c.end_bound().cloned() == hi);
    }
    same(a..b, Bound::Included(a), Bound::Excluded(b));
    same(a..=b, Bound::Included(a), Bound::Included(b));
    same(a.., Bound::Included(a), Bound::Unbounded);
    same(..b, Bound::Unbounded, Bound::Excluded(b));
    same(..=b, Bound::Unbounded, Bound::Included(b));
    same(.., Bound::Unbounded, Bound::Unbounded);
    same((Bound::Excluded(a), Bound::Included(b)), Bound::Excluded(a), Bound::Included(b));
}

#[kani::proof]
fn empty_slice() {
    let e: &[u8] = Default::default();
    assert!(e.is_empty());
}

#[kani::proof]
#[kani::unwind(5)]
fn into_boxed_slice() {
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let x: u8 = kani::any();
    let mut v = Vec::with_capacity(4);
    let mut i = 0;
    while i < n { v.push(x ^ i as u8); i += 1; }
    let c: Box<[u8]> = v.clone().into();
    let b = v.into_boxed_slice();
    assert!(b.len() == n && c.len() == n);
    let mut i = 0;
    while i < n { assert!(b[i] == x ^ i as u8 && c[i] == b[i]); i += 1; }
}

// ---- contracts/std_extra.rs: only in the verified text where the source calls them

#[kani::proof]
fn integers() {
    let (x, y): (u32, u32) = (kani::any(), kani::any());
    assert!(x.rotate_right(y) == rotl(x, (32 - y % 32) % 32));
    assert!(x == 0 || x.ilog2() == 31 - x.leading_zeros());
    assert!(x.is_power_of_two() == (x != 0 && x & x.wrapping_sub(1) == 0));
    assert!(x.wrapping_neg() as u64 == (0x1_0000_0000 - x as u64) % 0x1_0000_0000);
    assert!(x.abs_diff(y) == if x < y { y - x } else { x - y });
    let (a, b): (u8, u8) = (kani::any(), kani::any());
    assert!(a.abs_diff(b) == if a < b { b - a } else { a - b });
    let (x, y): (u64, u64) = (kani::any(), kani::any());
    assert!(x == 0 || x.ilog2() == 63 - x.leading_zeros());
    assert!(x.is_power_of_two() == (x != 0 && x & x.wrapping_sub(1) == 0));
    assert!(x.wrapping_neg() as u128 == (0x1_0000_0000_0000_0000 - x as u128) % 0x1_0000_0000_0000_0000);
    assert!(x.abs_diff(y) == if x < y { y - x } else { x - y });
    let (x, y): (usize, usize) = (kani::any(), kani::any());
    assert!(x.is_power_of_two() == (x != 0 && x & x.wrapping_sub(1) == 0));
    assert!(x.abs_diff(y) == if x < y { y - x } else { x - y });
}

/// rem_euclid is `%` for unsigned integers; div_ceil with the divisors and dividends of 8 bits
#[kani::proof]
fn divisions() {
    let (x, y): (u8, u8) = (kani::any(), kani::any());
    kani::assume(y != 0);
    assert!((x as u32).rem_euclid(y as u32) == x as u32 % y as u32);
    assert!((x as u64).rem_euclid(y as u64) == x as u64 % y as u64);
    assert!((x as usize).rem_euclid(y as usize) == x as usize % y as usize);
    assert!((x as u64).div_ceil(y as u64) == (x as u64 + y as u64 - 1) / y as u64);
    assert!((x as usize).div_ceil(y as usize) == (x as usize + y as usize - 1) / y as usize);
}

/// slices of up to 3 bytes
#[kani::proof]
#[kani::unwind(5)]
fn slices() {
    let mut a: [u8; 3] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let w = a;
    let v = a[..n].to_vec();
    assert!(v.len() == n);
    let mut i = 0;
    while i < n { assert!(v[i] == w[i]); i += 1; }
    let (p, q): (usize, usize) = (kani::any(), kani::any());
    if p < n && q < n {
        a[..n].swap(p, q);
        let mut i = 0;
        while i < 3 { assert!(a[i] == if i == p { w[q] } else if i == q { w[p] } else { w[i] }); i += 1; }
    }
    let b = a;
    let x: u8 = kani::any();
    a[..n].fill(x);
    let mut i = 0;
    while i < 3 { assert!(a[i] == if i < n { x } else { b[i] }); i += 1; }
}

#[kani::proof]
fn options() {
    let (o, p): (Option<u8>, Option<u8>) = (kani::any(), kani::any());
    let v: u8 = kani::any();
    let mut q = o;
    assert!(q.replace(v) == o && q == Some(v));
    assert!(o.as_ref().copied() == o);
    assert!(o.or(p) == if o.is_some() { o } else { p });
    assert!(o.xor(p) == match (o, p) { (Some(v), None) => Some(v), (None, Some(v)) => Some(v), _ => None });
    let b: bool = kani::any();
    assert!(b.then_some(v) == if b { Some(v) } else { None });
}
