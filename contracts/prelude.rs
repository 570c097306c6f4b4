#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments, non_snake_case, unused_braces)]
#![feature(allocator_api)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
use vstd::slice::*;

verus! {

global size_of usize == 8;

// ------------------------------------------------------------------ documented panics
/// `assert!(c)` of the source becomes a call of this: the condition is an obligation.
pub fn vx_assert(c: bool)
    requires c, // @C01,C21
{
}

/// Whether this is a build with debug assertions: both kinds are verified.
pub uninterp spec fn debug_build() -> bool;

#[verifier::external_body]
pub fn vx_debug() -> (r: bool)
    ensures r == debug_build(),
{
    cfg!(debug_assertions)
}

/// Vacuity probes (only in the probe run): `if vx_probe(n) { assert(false) }` has to fail wherever
/// the contract's preconditions and invariants can be met.
pub uninterp spec fn vx_probe(n: int) -> bool;

// ------------------------------------------------------------------ bits
// Other ways to ask whether `x` has all bits of `m`: not to depend on how the code writes it.
pub broadcast proof fn lemma_not_and_u32(x: u32, m: u32)
    ensures (#[trigger] (!x & m) == 0) == (x & m == m),
{
    assert((!x & m == 0) == (x & m == m)) by (bit_vector);
}
pub broadcast proof fn lemma_and_comm_u32(x: u32, m: u32)
    ensures #[trigger] (x & m) == m & x,
{
    assert(x & m == m & x) by (bit_vector);
}
pub broadcast proof fn lemma_or_mask_u32(x: u32, m: u32)
    ensures (#[trigger] (x | m) == x) == (x & m == m), ((x | m) == m) == (x & m == x),
{
    assert(((x | m) == x) == (x & m == m)) by (bit_vector);
    assert(((x | m) == m) == (x & m == x)) by (bit_vector);
}
pub broadcast proof fn lemma_not_and_u64(x: u64, m: u64)
    ensures (#[trigger] (!x & m) == 0) == (x & m == m),
{
    assert((!x & m == 0) == (x & m == m)) by (bit_vector);
}
pub broadcast proof fn lemma_and_comm_u64(x: u64, m: u64)
    ensures #[trigger] (x & m) == m & x,
{
    assert(x & m == m & x) by (bit_vector);
}
pub broadcast proof fn lemma_or_mask_u64(x: u64, m: u64)
    ensures (#[trigger] (x | m) == x) == (x & m == m), ((x | m) == m) == (x & m == x),
{
    assert(((x | m) == x) == (x & m == m)) by (bit_vector);
    assert(((x | m) == m) == (x & m == x)) by (bit_vector);
}
/// shifting left by one doubles (in whatever type the distance is written)
pub proof fn lemma_double_u32(x: u32)
    ensures x << 1usize == (2 * x) % 0x1_0000_0000, x << 1u32 == (2 * x) % 0x1_0000_0000, x << 1i32 == (2 * x) % 0x1_0000_0000,
{
    assert((x << 1usize) == if x < 0x8000_0000u32 { add(x, x) } else { add(sub(x, 0x8000_0000u32), sub(x, 0x8000_0000u32)) }) by (bit_vector);
    assert(x << 1u32 == x << 1usize) by (bit_vector);
    assert(x << 1i32 == x << 1usize) by (bit_vector);
}
pub proof fn lemma_double_u64(x: u64)
    ensures x << 1usize == (2 * x) % 0x1_0000_0000_0000_0000, x << 1u32 == (2 * x) % 0x1_0000_0000_0000_0000, x << 1i32 == (2 * x) % 0x1_0000_0000_0000_0000,
{
    assert((x << 1usize) == if x < 0x8000_0000_0000_0000u64 { add(x, x) } else { add(sub(x, 0x8000_0000_0000_0000u64), sub(x, 0x8000_0000_0000_0000u64)) }) by (bit_vector);
    assert(x << 1u32 == x << 1usize) by (bit_vector);
    assert(x << 1i32 == x << 1usize) by (bit_vector);
}
pub broadcast proof fn lemma_xor_comm_u32(x: u32, y: u32)
    ensures #[trigger] (x ^ y) == y ^ x,
{
    assert(x ^ y == y ^ x) by (bit_vector);
}
pub broadcast proof fn lemma_xor_comm_u8(x: u8, y: u8)
    ensures #[trigger] (x ^ y) == y ^ x,
{
    assert(x ^ y == y ^ x) by (bit_vector);
}
pub broadcast proof fn lemma_xor_swap_u32(x: u32, y: u32, z: u32)
    ensures #[trigger] ((x ^ y) ^ z) == (x ^ z) ^ y, (x ^ y) ^ z == x ^ (y ^ z),
{
    assert((x ^ y) ^ z == (x ^ z) ^ y) by (bit_vector);
    assert((x ^ y) ^ z == x ^ (y ^ z)) by (bit_vector);
}
pub broadcast group group_xor { lemma_xor_comm_u32, lemma_xor_swap_u32 }
pub broadcast group group_bits { lemma_xor_comm_u8, lemma_not_and_u32, lemma_not_and_u64, lemma_and_comm_u32, lemma_and_comm_u64, lemma_or_mask_u32, lemma_or_mask_u64 }

// ------------------------------------------------------------------ chunking machines
/// The mathematical object behind an algorithm: a byte-at-a-time automaton. `hit(a, b)` says that
/// the chunk ends after byte `b`, `restart` gives the state the next chunk starts with.
pub trait Machine: Sized {
    type A;
    spec fn init(&self) -> Self::A;
    spec fn step(&self, a: Self::A, b: u8) -> Self::A;
    spec fn hit(&self, a: Self::A, b: u8) -> bool;
    spec fn restart(&self, a: Self::A) -> Self::A;
}

/// Runs the machine on `s` from position `i`: the position after the first cut (if any) and the
/// state at the end (after the cut, or after all of `s`).
pub open spec fn run<M: Machine>(m: &M, a: M::A, s: Seq<u8>, i: int) -> (Option<int>, M::A)
    decreases s.len() - i
{
    if i < 0 || i >= s.len() {
        (None, a)
    } else {
        let a1 = m.step(a, s[i]);
        if m.hit(a, s[i]) { (Some(i + 1), m.restart(a1)) } else { run(m, a1, s, i + 1) }
    }
}

/// State before the byte at `n`, starting with `a` at position `i` and ignoring cuts.
pub open spec fn state_at<M: Machine>(m: &M, a: M::A, s: Seq<u8>, i: int, n: int) -> M::A
    decreases n - i
{
    if i >= n || i < 0 || i >= s.len() { a } else { state_at(m, m.step(a, s[i]), s, i + 1, n) }
}

/// All cuts of `s` from position `i` on.
pub open spec fn cuts<M: Machine>(m: &M, a: M::A, s: Seq<u8>, i: int) -> Seq<int>
    decreases s.len() - i
{
    let r = run(m, a, s, i);
    match r.0 {
        None => Seq::empty(),
        Some(n) => if i < n <= s.len() { seq![n] + cuts(m, r.1, s, n) } else { Seq::empty() },
    }
}

pub open spec fn shift(r: Option<int>, d: int) -> Option<int> {
    match r { None => None, Some(n) => Some(n + d) }
}

pub open spec fn opt_int(r: Option<usize>) -> Option<int> {
    match r { None => None, Some(n) => Some(n as int) }
}

/// A cut lies after at least one byte and inside of the data.
pub proof fn lemma_run_range<M: Machine>(m: &M, a: M::A, s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures
        run(m, a, s, i).0 matches Some(n) ==> i < n <= s.len(),
    decreases s.len() - i
{
    if i < s.len() && !m.hit(a, s[i]) { lemma_run_range(m, m.step(a, s[i]), s, i + 1); }
}

/// Only the bytes from `i` on matter.
pub proof fn lemma_run_skip<M: Machine>(m: &M, a: M::A, s: Seq<u8>, t: Seq<u8>, i: int, d: int)
    requires 0 <= i <= s.len(), t.len() == s.len() + d, 0 <= i + d,
        forall|j: int| i <= j < s.len() ==> s[j] == t[j + d],
    ensures
        run(m, a, t, i + d).0 == shift(run(m, a, s, i).0, d),
        run(m, a, t, i + d).1 == run(m, a, s, i).1,
    decreases s.len() - i
{
    if i < s.len() {
        assert(s[i] == t[i + d]);
        if !m.hit(a, s[i]) { lemma_run_skip(m, m.step(a, s[i]), s, t, i + 1, d); }
    }
}

/// More data after `s` changes nothing about a cut inside of `s`; without one, the search goes on
/// from the state reached at the end of `s`.
pub proof fn lemma_run_concat<M: Machine>(m: &M, a: M::A, s: Seq<u8>, t: Seq<u8>, i: int)
    requires 0 <= i <= s.len() <= t.len(), forall|j: int| i <= j < s.len() ==> s[j] == t[j],
    ensures
        match run(m, a, s, i).0 {
            Some(n) => run(m, a, t, i) == run(m, a, s, i),
            None => run(m, a, t, i) == run(m, run(m, a, s, i).1, t, s.len() as int),
        },
    decreases s.len() - i
{
    if i < s.len() {
        assert(s[i] == t[i]);
        if !m.hit(a, s[i]) { lemma_run_concat(m, m.step(a, s[i]), s, t, i + 1); }
    }
}

/// `run` is the first hit of the plain state sequence (used to state properties of single cuts).
pub proof fn lemma_run_state<M: Machine>(m: &M, a: M::A, s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures
        match run(m, a, s, i).0 {
            Some(n) => i < n <= s.len()
                && (forall|j: int| i <= j < n - 1 ==> !#[trigger] m.hit(state_at(m, a, s, i, j), s[j]))
                && m.hit(state_at(m, a, s, i, n - 1), s[n - 1])
                && run(m, a, s, i).1 == m.restart(m.step(state_at(m, a, s, i, n - 1), s[n - 1])),
            None => (forall|j: int| i <= j < s.len() ==> !#[trigger] m.hit(state_at(m, a, s, i, j), s[j]))
                && run(m, a, s, i).1 == state_at(m, a, s, i, s.len() as int),
        },
    decreases s.len() - i
{
    if i < s.len() {
        let a1 = m.step(a, s[i]);
        if !m.hit(a, s[i]) {
            lemma_run_state(m, a1, s, i + 1);
            assert forall|j: int| i < j <= s.len() implies state_at(m, a, s, i, j) == state_at(m, a1, s, i + 1, j) by {}
        }
    }
}

pub proof fn lemma_state_step<M: Machine>(m: &M, a: M::A, s: Seq<u8>, i: int, n: int)
    requires 0 <= i <= n < s.len(),
    ensures state_at(m, a, s, i, n + 1) == m.step(state_at(m, a, s, i, n), s[n]),
    decreases n - i
{
    if i < n { lemma_state_step(m, m.step(a, s[i]), s, i + 1, n); }
    else { assert(state_at(m, m.step(a, s[i]), s, i + 1, i + 1) == m.step(a, s[i])); }
}

pub proof fn lemma_state_compose<M: Machine>(m: &M, a: M::A, s: Seq<u8>, i: int, j: int, n: int)
    requires 0 <= i <= j <= n <= s.len(),
    ensures state_at(m, a, s, i, n) == state_at(m, state_at(m, a, s, i, j), s, j, n),
    decreases j - i
{
    if i < j { lemma_state_compose(m, m.step(a, s[i]), s, i + 1, j, n); }
}

/// Cuts after an emitted chunk are those of the rest on its own.
pub proof fn lemma_cuts_skip<M: Machine>(m: &M, a: M::A, s: Seq<u8>, t: Seq<u8>, i: int, d: int)
    requires 0 <= i <= s.len(), t.len() == s.len() + d, 0 <= i + d,
        forall|j: int| i <= j < s.len() ==> s[j] == t[j + d],
    ensures
        cuts(m, a, t, i + d).len() == cuts(m, a, s, i).len(),
        forall|k: int| 0 <= k < cuts(m, a, s, i).len() ==> cuts(m, a, t, i + d)[k] == cuts(m, a, s, i)[k] + d,
    decreases s.len() - i
{
    lemma_run_skip(m, a, s, t, i, d);
    lemma_run_range(m, a, s, i);
    let r = run(m, a, s, i);
    if let Some(n) = r.0 {
        lemma_cuts_skip(m, r.1, s, t, n, d);
        assert(cuts(m, a, s, i) =~= seq![n] + cuts(m, r.1, s, n));
        assert(cuts(m, a, t, i + d) =~= seq![n + d] + cuts(m, r.1, t, n + d));
        assert forall|k: int| 0 <= k < cuts(m, a, s, i).len() implies cuts(m, a, t, i + d)[k] == cuts(m, a, s, i)[k] + d by {
            if k > 0 { assert(cuts(m, r.1, t, n + d)[k - 1] == cuts(m, r.1, s, n)[k - 1] + d); }
        }
    }
}

/// A search that found nothing up to `j` resumes there.
pub proof fn lemma_cuts_resume<M: Machine>(m: &M, a: M::A, b: M::A, s: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), run(m, a, s, i) == run(m, b, s, j),
    ensures cuts(m, a, s, i) == cuts(m, b, s, j),
{
    lemma_run_range(m, a, s, i);
    lemma_run_range(m, b, s, j);
}

// ------------------------------------------------------------------ windows
/// The last (up to) `w` bytes.
pub open spec fn tail(s: Seq<u8>, w: int) -> Seq<u8> {
    if s.len() <= w { s } else { s.skip(s.len() - w) }
}

/// A window of (up to) `w` bytes after one more byte.
pub open spec fn wpush(win: Seq<u8>, w: int, b: u8) -> Seq<u8> {
    if win.len() >= w { win.drop_first().push(b) } else { win.push(b) }
}

pub proof fn lemma_tail_step(s: Seq<u8>, i: int, w: int)
    requires 0 <= i < s.len(), w >= 1,
    ensures
        tail(s.take(i + 1), w) == wpush(tail(s.take(i), w), w, s[i]),
        i >= w ==> tail(s.take(i), w)[0] == s[i - w],
        tail(s.take(i), w).len() == if i >= w { w } else { i },
{
    assert(tail(s.take(i + 1), w) =~= wpush(tail(s.take(i), w), w, s[i]));
}

/// Keeping the last `min(len, w)` bytes keeps the window.
pub proof fn lemma_tail_keep(s: Seq<u8>, d: int, w: int)
    requires 0 <= d <= s.len(), d == if s.len() > w { s.len() - w } else { 0 }, w >= 0,
    ensures tail(s.subrange(d, s.len() as int), w) == tail(s, w), s.take(s.len() as int) == s,
{
    assert(tail(s.subrange(d, s.len() as int), w) =~= tail(s, w));
    assert(s.take(s.len() as int) =~= s);
}

/// A circular buffer, oldest byte first.
pub open spec fn ring(buf: Seq<u8>, idx: int) -> Seq<u8> {
    buf.skip(idx) + buf.take(idx)
}

pub proof fn lemma_ring_step(buf: Seq<u8>, idx: int, b: u8)
    requires 0 <= idx < buf.len(),
    ensures
        ring(buf, idx)[0] == buf[idx],
        ring(buf, idx).len() == buf.len(),
        ring(buf.update(idx, b), if idx + 1 == buf.len() { 0 } else { idx + 1 }) == ring(buf, idx).drop_first().push(b),
{
    let n = if idx + 1 == buf.len() { 0 } else { idx + 1 };
    assert(ring(buf.update(idx, b), n) =~= ring(buf, idx).drop_first().push(b));
}

pub proof fn lemma_wrap_index(i: int, n: int)
    requires 0 <= i < n,
    ensures (i + 1) % n == if i + 1 == n { 0 } else { i + 1 },
{
    if i + 1 == n { vstd::arithmetic::div_mod::lemma_mod_self_0(n); }
    else { vstd::arithmetic::div_mod::lemma_small_mod((i + 1) as nat, n as nat); }
}

// ------------------------------------------------------------------ library functions without a vstd contract
/// Longest stream one chunker is fed (2^62 bytes): keeps the 64-bit byte counters exact.
pub open spec fn max_stream() -> int { 0x4000_0000_0000_0000 }


pub open spec fn rotl(x: u32, n: int) -> u32 {
    if n <= 0 { x } else { (x << (n as u32)) | (x >> ((32 - n) as u32)) }
}

pub assume_specification [u32::rotate_left] (x: u32, n: u32) -> (r: u32)
    ensures r == rotl(x, (n % 32) as int);

pub open spec fn wpow(b: u64, e: int) -> u64
    decreases e
{
    if e <= 0 { 1 } else { ((wpow(b, e - 1) * b) % 0x1_0000_0000_0000_0000) as u64 }
}

pub assume_specification [u64::wrapping_pow] (b: u64, e: u32) -> (r: u64)
    ensures r == wpow(b, e as int);

pub assume_specification<T: Ord> [core::cmp::min] (a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==>
        r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) == core::cmp::Ordering::Greater { b } else { a });

pub assume_specification<T: Ord> [core::cmp::max] (a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==>
        r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) == core::cmp::Ordering::Greater { a } else { b });

/// `X[a..b].copy_from_slice(Y)` of the source becomes a call of this (same panics as obligations).
pub fn vx_copy(x: &mut Box<[u8]>, a: usize, b: usize, y: &[u8])
    requires a <= b <= old(x)@.len(), y@.len() == b - a, // @C01
    ensures
        final(x)@.len() == old(x)@.len(),
        forall|j: int| 0 <= j < final(x)@.len() ==> final(x)@[j] == if a <= j < b { y@[j - a] } else { old(x)@[j] },
{
    let mut k: usize = 0;
    while k < y.len()
        invariant
            k <= y@.len(), a <= b <= x@.len(), y@.len() == b - a,
            x@.len() == old(x)@.len(),
            forall|j: int| 0 <= j < x@.len() ==> x@[j] == if a <= j < a + k { y@[j - a] } else { old(x)@[j] },
        decreases y@.len() - k
    {
        x[a + k] = y[k];
        k = k + 1;
    }
}

/// `mem::replace` and `mem::take`, as they are defined
pub fn vx_replace<T>(dest: &mut T, src: T) -> (r: T)
    ensures *final(dest) == src, r == *old(dest),
{
    let mut s = src;
    core::mem::swap(dest, &mut s);
    s
}

pub fn vx_take<T: Default>(dest: &mut T) -> (r: T)
    ensures r == *old(dest), call_ensures(T::default, (), *final(dest)),
{
    let mut s = T::default();
    core::mem::swap(dest, &mut s);
    s
}

pub assume_specification<'a, T> [<&'a [T] as Default>::default] () -> (r: &'a [T])
    ensures r@ == Seq::<T>::empty();

pub assume_specification<T, A: std::alloc::Allocator> [std::vec::Vec::<T, A>::into_boxed_slice] (v: std::vec::Vec<T, A>) -> (r: std::boxed::Box<[T], A>)
    ensures r@ == v@;

} // verus!
