//@@ uses
use super::range::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::range::*;
//@@ module
/// the hasher: hash, last byte, the byte that last followed each byte
pub struct ZState { pub hash: u32, pub last: u8, pub pred: Seq<u8> }

/// (hasher, bytes since the cut)
impl Machine for Zpaq {
    type A = (ZState, int);
    open spec fn init(&self) -> (ZState, int) { (zpaq_init(), 0) }
    closed spec fn step(&self, a: (ZState, int), b: u8) -> (ZState, int) { (zpaq_feed(a.0, b), a.1 + 1) }
    closed spec fn hit(&self, a: (ZState, int), b: u8) -> bool { zpaq_split(*self, zpaq_feed(a.0, b).hash, a.1 + 1) }
    open spec fn restart(&self, a: (ZState, int)) -> (ZState, int) { (zpaq_init(), 0) }
}

pub open spec fn zpaq_init() -> ZState { ZState { hash: 0, last: 0, pred: Seq::new(256, |i: int| 0u8) } }

/// (hash + byte + 1) * m, with the multiplier of a right or wrong prediction
#[verifier::opaque]
pub open spec fn zpaq_mix(h: u32, b: u8, predicted: bool) -> u32 {
    let x = (((h + b) % 0x1_0000_0000) + 1) % 0x1_0000_0000;
    if predicted { ((x * 314159265) % 0x1_0000_0000) as u32 } else { ((x * 271828182) % 0x1_0000_0000) as u32 }
}

pub open spec fn zpaq_feed(s: ZState, b: u8) -> ZState {
    ZState { hash: zpaq_mix(s.hash, b, b == s.pred[s.last as int]), last: b, pred: s.pred.update(s.last as int, b) }
}

pub open spec fn zpaq_min_ok(p: Zpaq, n: int) -> bool {
    match p.range.0 { Bound::Included(m) => n >= m, Bound::Excluded(m) => n > m, Bound::Unbounded => true }
}
pub open spec fn zpaq_max_ok(p: Zpaq, n: int) -> bool {
    match p.range.1 { Bound::Included(m) => n <= m, Bound::Excluded(m) => n < m, Bound::Unbounded => true }
}
pub open spec fn zpaq_split(p: Zpaq, hash: u32, n: int) -> bool {
    (hash < p.max_hash && zpaq_min_ok(p, n)) || !zpaq_max_ok(p, n + 1)
}

/// The multiplicative form modulo 2^32, without the intermediate wrap-arounds.
pub proof fn zpaq_mix_is(h: u32, b: u8, predicted: bool)
    ensures zpaq_mix(h, b, predicted) == ((h + b + 1) * (if predicted { 314159265int } else { 271828182int })) % 0x1_0000_0000, // @C18
{
    reveal(zpaq_mix);
    let m = 0x1_0000_0000int;
    let x = h + b + 1;
    vstd::arithmetic::div_mod::lemma_add_mod_noop(h + b, 1, m);
    assert((1int % m) == 1);
    let y = (((h + b) % m) + 1) % m;
    assert(y == x % m);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(x, 314159265, m);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(x, 271828182, m);
}

/// the byte that last followed `c` (0 if none) in s, whose first byte follows 0
pub open spec fn zpaq_pred(s: Seq<u8>, c: u8) -> u8
    decreases s.len()
{
    if s.len() == 0 { 0 }
    else if (if s.len() >= 2 { s[s.len() - 2] } else { 0 }) == c { s.last() }
    else { zpaq_pred(s.drop_last(), c) }
}

/// C18: the prediction table holds the byte that last followed each byte in this chunk.
pub proof fn zpaq_table(p: &Zpaq, s: Seq<u8>, n: int, c: u8)
    requires 0 <= n <= s.len(),
    ensures
        state_at(p, p.init(), s, 0, n).0.pred.len() == 256, // @C18
        state_at(p, p.init(), s, 0, n).0.last == (if n > 0 { s[n - 1] } else { 0 }), // @C18
        state_at(p, p.init(), s, 0, n).0.pred[c as int] == zpaq_pred(s.take(n), c), // @C18
        state_at(p, p.init(), s, 0, n).1 == n, // @C18,C08
    decreases n
{
    if n > 0 {
        zpaq_table(p, s, n - 1, c);
        lemma_state_step(p, p.init(), s, 0, n - 1);
        let t = s.take(n);
        assert(t.drop_last() =~= s.take(n - 1));
        assert(t.last() == s[n - 1]);
        assert(t.len() >= 2 ==> t[t.len() - 2] == s[n - 2]);
    }
}

/// C08/C18: a cut chunk is inside of the range (when some size is), and no chunk grows past it.
pub proof fn zpaq_sizes(p: &Zpaq, s: Seq<u8>)
    ensures
        run(p, p.init(), s, 0).0 matches Some(n) ==> (exists|k: int| k >= 1 && #[trigger] zpaq_min_ok(*p, k) && zpaq_max_ok(*p, k)) ==> zpaq_min_ok(*p, n) && zpaq_max_ok(*p, n), // @C08,C18
        run(p, p.init(), s, 0).0 is None ==> s.len() == 0 || zpaq_max_ok(*p, s.len() as int + 1), // @C08,C18
{
    lemma_run_state(p, p.init(), s, 0);
    let r = run(p, p.init(), s, 0);
    if let Some(n) = r.0 {
        zpaq_table(p, s, n - 1, 0);
        if n >= 2 {
            zpaq_table(p, s, n - 2, 0);
            assert(!p.hit(state_at(p, p.init(), s, 0, n - 2), s[n - 2]));
            assert(zpaq_max_ok(*p, n));
        }
    } else if s.len() > 0 {
        let n = s.len() as int;
        zpaq_table(p, s, n - 1, 0);
        assert(!p.hit(state_at(p, p.init(), s, 0, n - 1), s[n - 1]));
    }
}

pub proof fn zpaq_interfaces(p: &Zpaq, i: &ZpaqIncr, s: Seq<u8>)
    requires p.incr_start(i),
    ensures
        cuts(&i.mach(), i.abs(), s, 0) == cuts(&p.mach(), p.mach().init(), s, 0), // @C04
        forall|a: (ZState, int)| #[trigger] p.mach().restart(a) == p.mach().init(), // @C06
{
}

impl ZpaqHash {
    pub open spec fn z(&self) -> ZState { ZState { hash: self.hash.0, last: self.last_byte, pred: self.predicted_byte@ } }
}

// ---- constructors
/// floor(log2(max / 4)), between 1 and 32
pub open spec fn zpaq_ave(max: u64, r: u8) -> bool {
    let m = if max / 4 < 2 { 2u64 } else { (max / 4) as u64 };
    1 <= r <= 32 && (1u64 << r) <= m && (r < 32 ==> m < (1u64 << ((r + 1) as u8)))
}

pub proof fn lemma_ave(m: u64, z: u32)
    requires m >= 2, z == vstd::std_specs::bits::u64_leading_zeros(m) as u32,
    ensures
        z <= 62,
        63 - z <= 32 ==> (1u64 << ((63 - z) as u8)) <= m && (63 - z < 32 ==> m < (1u64 << ((63 - z + 1) as u8))),
        63 - z > 32 ==> (1u64 << 32u8) <= m,
{
    vstd::std_specs::bits::axiom_u64_leading_zeros(m);
    assert(z <= 62) by {
        if z >= 63 {
            assert((m >> sub(64u64, z as u64)) == 0);
            assert(m < 2) by (bit_vector) requires 63 <= z <= 64, (m >> sub(64u64, z as u64)) == 0 || m == 0;
        }
    }
    assert((1u64 << sub(63, z)) <= m) by (bit_vector) requires z <= 62, (m >> sub(63u64, z as u64)) & 1 != 0;
    let k = (63 - z) as u8;
    assert((1u64 << k) <= m) by (bit_vector) requires z <= 62, k == sub(63, z), (1u64 << sub(63, z)) <= m;
    if z > 0 {
        assert(m < (1u64 << sub(64, z))) by (bit_vector) requires 0 < z <= 62, (m >> sub(64u64, z as u64)) == 0;
        let k1 = (63 - z + 1) as u8;
        assert(m < (1u64 << k1)) by (bit_vector) requires 0 < z <= 62, k1 == sub(64, z), m < (1u64 << sub(64, z));
    }
    if 63 - z > 32 {
        assert((1u64 << 32u8) <= m) by (bit_vector) requires 32 < k <= 63, (1u64 << k) <= m;
    }
}

pub proof fn lemma_zpaq_unit(k: u8)
    requires k <= 22,
    ensures
        (1u64 << k) <= 0x40_0000,
        64u64 << k == 64 * (1u64 << k),
        8128u64 << k == 8128 * (1u64 << k),
{
    assert((1u64 << k) <= 0x40_0000u64) by (bit_vector) requires k <= 22;
    assert(64u64 << k == mul(64, 1u64 << k)) by (bit_vector) requires k <= 22;
    assert(8128u64 << k == mul(8128, 1u64 << k)) by (bit_vector) requires k <= 22;
}

pub proof fn lemma_hash_limit(a: u8)
    requires 1 <= a <= 32,
    ensures (1u32 << ((32 - a) as u8)) >= 1,
{
    assert((1u32 << sub(32u8, a)) >= 1u32) by (bit_vector) requires 1 <= a <= 32;
}

/// The clones of a range have its bounds: a condition on a caller's own range type.
pub open spec fn clones_alike<R: RangeBounds<u64> + Clone>(a: R) -> bool {
    forall|b: R| #[trigger] call_ensures(R::clone, (&a,), b) ==> steady::<u64, R>(&b) && a.spec_start_bound() == b.spec_start_bound() && a.spec_end_bound() == b.spec_end_bound()
}

/// the size a range's average is derived from
pub open spec fn zpaq_top(lo: Bound<&u64>, hi: Bound<&u64>) -> int {
    match hi {
        Bound::Included(m) => *m as int,
        Bound::Excluded(m) => *m - 1,
        Bound::Unbounded => match lo {
            Bound::Included(m) => 64 * *m,
            Bound::Excluded(m) => 64 * (*m + 1),
            Bound::Unbounded => 0x4_0000,
        },
    }
}

pub open spec fn own(b: Bound<&u64>) -> Bound<u64> {
    match b { Bound::Included(m) => Bound::Included(*m), Bound::Excluded(m) => Bound::Excluded(*m), Bound::Unbounded => Bound::Unbounded }
}

/// The conditions of `with_range` hold for the ranges of std (that their clones are alike is checked by
/// Kani, assumed/std.rs: vstd does not specify these clones).
pub fn check_std_ranges(a: u64, b: u64)
    requires
        8 <= a < b < 0x100_0000_0000,
        clones_alike(a..b), forall|i: std::ops::RangeInclusive<u64>| #[trigger] clones_alike(i), clones_alike(..b), clones_alike(..=b), clones_alike(a..), clones_alike(..),
        clones_alike((Bound::Excluded(a), Bound::Included(b))),
{
    let z = Zpaq::with_range(a..b);
    assert(z.range == (Bound::Included(a), Bound::Excluded(b))); // @C21
    let z = Zpaq::with_range(a..=b);
    assert(z.range == (Bound::Included(a), Bound::Included(b))); // @C21
    let z = Zpaq::with_range(..b);
    assert(z.range == (Bound::<u64>::Unbounded, Bound::Excluded(b))); // @C21
    let z = Zpaq::with_range(..=b);
    assert(z.range == (Bound::<u64>::Unbounded, Bound::Included(b))); // @C21
    let z = Zpaq::with_range(a..);
    assert(z.range == (Bound::Included(a), Bound::<u64>::Unbounded)); // @C21
    let z = Zpaq::with_range(..);
    assert(z.range == (Bound::<u64>::Unbounded, Bound::<u64>::Unbounded)); // @C21
    let z = Zpaq::with_range((Bound::Excluded(a), Bound::Included(b)));
    assert(z.range == (Bound::Excluded(a), Bound::Included(b))); // @C21
}

//@@ derive Zpaq.Clone
// the verifier does not know the std clone of tuples: derived Clone of Copy fields copies them
impl Clone for Zpaq { fn clone(&self) -> (r: Self) ensures r == *self { Zpaq { range: self.range, max_hash: self.max_hash } } }
//@@ derive ZpaqHash.Clone
    ensures r.hash == self.hash, r.last_byte == self.last_byte
//@@ fn Zpaq.fragment_ave_from_max @C21 ~C18
    ensures zpaq_ave($1, r),
//@@ body Zpaq.fragment_ave_from_max
    proof {
        let m = if $1 / 4 < 2 { 2u64 } else { ($1 / 4) as u64 };
        lemma_ave(m, vstd::std_specs::bits::u64_leading_zeros(m) as u32);
        // small sizes, for a source which lists them
        lemma_ave(2, vstd::std_specs::bits::u64_leading_zeros(2u64) as u32);
        lemma_ave(3, vstd::std_specs::bits::u64_leading_zeros(3u64) as u32);
        assert((1u64 << 1u8) == 2 && (1u64 << 2u8) == 4 && (1u64 << 0u8) == 1) by (bit_vector);
        let x: u64 = $1;
        assert(x >> 2 == x / 4) by (bit_vector);
    }
//@@ fn Zpaq.fragment_ave_from_range @C21 ~C18
    requires steady::<u64, _>(&$1), 0 <= zpaq_top($1.spec_start_bound(), $1.spec_end_bound()) <= u64::MAX,
    ensures zpaq_ave(zpaq_top($1.spec_start_bound(), $1.spec_end_bound()) as u64, r),
//@@ body Zpaq.fragment_ave_from_range
    proof {
        assert((1u64 << 16u8) == 0x1_0000 && (1u64 << 17u8) == 0x2_0000) by (bit_vector);
    }
//@@ fn Zpaq.range_from_fragment_ave @C21 ~C18
    requires 10 <= $1 <= 32,
    ensures
        steady::<u64, _>(&r),
        own(r.spec_start_bound()) == Bound::Included(64u64 << (($1 - 10) as u8)),
        own(r.spec_end_bound()) == Bound::Included(8128u64 << (($1 - 10) as u8)),
//@@ body Zpaq.range_from_fragment_ave
    proof { lemma_zpaq_unit(($1 - 10) as u8); }
//@@ fn Zpaq.range_from_max @C21 ~C18
    ensures steady::<u64, _>(&r), own(r.spec_start_bound()) == Bound::Included(($1 / 64) as u64), own(r.spec_end_bound()) == Bound::Included($1),
//@@ body Zpaq.range_from_max
    proof {
        let x: u64 = $1;
        assert(x >> 6 == x / 64) by (bit_vector);
    }
//@@ fn Zpaq.max_hash_from_fragment_ave @C21 ~C18
    requires 1 <= $1 <= 32,
    ensures r == 1u32 << ((32 - $1) as u8),
//@@ body Zpaq.max_hash_from_fragment_ave
    proof { lemma_hash_limit($1); }
//@@ fn Zpaq.with_range @C21 ~C18
    requires steady::<u64, _>(&$1), clones_alike($1), 0 <= zpaq_top($1.spec_start_bound(), $1.spec_end_bound()) <= u64::MAX,
    ensures
        r.range == (own($1.spec_start_bound()), own($1.spec_end_bound())),
        exists|a: u8| zpaq_ave(zpaq_top($1.spec_start_bound(), $1.spec_end_bound()) as u64, a) && r.max_hash == #[trigger] (1u32 << ((32 - a) as u8)),
//@@ fn Zpaq.with_average_size_pow_2 @C21 ~C18
    requires 10 <= $1 <= 32,
    ensures
        r.range == (Bound::Included(64u64 << (($1 - 10) as u8)), Bound::Included(8128u64 << (($1 - 10) as u8))),
        r.max_hash == 1u32 << ((32 - $1) as u8),
//@@ fn Zpaq.with_max_size @C21 ~C18
    ensures
        r.range == (Bound::Included(($1 / 64) as u64), Bound::Included($1)),
        exists|a: u8| zpaq_ave($1, a) && r.max_hash == #[trigger] (1u32 << ((32 - a) as u8)),
//@@ fn Zpaq.with_average_and_range @C21 ~C18
    requires 1 <= $1 <= 32, steady::<u64, _>(&$2),
    ensures
        r.range == (own($2.spec_start_bound()), own($2.spec_end_bound())),
        r.max_hash == 1u32 << ((32 - $1) as u8),
//@@ fn Zpaq.Default.default @C21 ~C18
    ensures
        r.range == (Bound::Included(4096u64), Bound::Included(520192u64)),
        r.max_hash == 0x1_0000,
//@@ body Zpaq.Default.default
    assert((64u64 << 6u8) == 4096 && (8128u64 << 6u8) == 520192 && (1u32 << 16u8) == 0x1_0000) by (bit_vector);
//@@ fn Zpaq.split_here @C18 ~C01,C02,C03,C04,C08
    requires $2 < u64::MAX,
    ensures r == zpaq_split(*self, $1, $2 as int),
//@@ fn ZpaqSearchState.feed @C18 ~C01,C02,C04
    requires old(self).idx < u64::MAX,
    ensures final(self).idx == old(self).idx + 1, final(self).state.z() == zpaq_feed(old(self).state.z(), $1), r == final(self).state.hash.0,
//@@ impl Zpaq.Chunk
    type M = Zpaq;
    open spec fn mach(&self) -> Zpaq { *self }
    open spec fn ok(&self) -> bool { true }
    open spec fn soff(st: &ZpaqSearchState) -> int { 0 }
    open spec fn sinv(&self, st: &ZpaqSearchState) -> bool { true }
    open spec fn scnt(st: &ZpaqSearchState) -> int { st.idx as int }
    open spec fn sabs(&self, st: &ZpaqSearchState, kept: Seq<u8>) -> (ZState, int) { (st.state.z(), st.idx as int) }
    open spec fn window(&self) -> int { 0 }
//@@ fn Zpaq.Chunk.to_search_state @C21 ~C02,C04,C06,C18
//@@ fn Zpaq.Chunk.find_chunk_edge @C18 ~C01,C02,C04,C06,C08,C09
//@@ loop Zpaq.Chunk.find_chunk_edge 0
    invariant
        $1.idx == old($1).idx + $i,
        run(self, ($1.state.z(), $1.idx as int), $2@, $i as int) == run(self, (old($1).state.z(), old($1).idx as int), $2@, 0),
//@@ fn ZpaqSearchState.From<&Zpaq>.from @C21 ~C18
    ensures r.state.z() == zpaq_init(), r.idx == 0,
//@@ fn ZpaqIncr.From<&Zpaq>.from @C21 ~C04,C18
    ensures r.params == *$1, r.state.z() == zpaq_init(), r.idx == 0,
//@@ impl Zpaq.ToChunkIncr
    open spec fn incr_ok(&self) -> bool { true }
    open spec fn incr_start(&self, r: &ZpaqIncr) -> bool {
        r.mach() == *self && r.abs() == self.init() && r.inv() && r.cnt() == 0
    }
//@@ fn Zpaq.ToChunkIncr.to_chunk_incr @C21 ~C04,C18
//@@ fn ZpaqIncr.feed @C18 ~C01,C03,C04
    requires old(self).idx < u64::MAX,
    ensures final(self).idx == old(self).idx + 1, final(self).state.z() == zpaq_feed(old(self).state.z(), $1), r == final(self).state.hash.0, final(self).params == old(self).params,
//@@ fn ZpaqIncr.reset @C06 ~C03,C04,C18
    ensures final(self).params == old(self).params, final(self).idx == 0, final(self).state.z() == zpaq_init(),
//@@ impl ZpaqIncr.ChunkIncr
    type M = Zpaq;
    open spec fn mach(&self) -> Zpaq { self.params }
    open spec fn abs(&self) -> (ZState, int) { (self.state.z(), self.idx as int) }
    open spec fn inv(&self) -> bool { true }
    open spec fn cnt(&self) -> int { self.idx as int }
    open spec fn report(&self, data: Seq<u8>, n: int) -> int { n }
    open spec fn progress(&self) -> bool { true }
//@@ fn ZpaqIncr.ChunkIncr.push @C18 ~C01,C03,C04,C05,C06,C08
//@@ loop ZpaqIncr.ChunkIncr.push 0
    invariant
        self.params == old(self).params,
        self.idx == old(self).idx + $i,
        run(&self.params, (self.state.z(), self.idx as int), $1@, $i as int) == run(&self.params, (old(self).state.z(), old(self).idx as int), $1@, 0),
//@@ fn ZpaqIncr.From<Zpaq>.from @C21 ~C04,C18
    ensures r.params == $1, r.state.z() == zpaq_init(), r.idx == 0,
//@@ fn ZpaqHash.Default.default @C18 ~C06,C21
    ensures r.z() == zpaq_init(),
//@@ body ZpaqHash.Default.default
    proof {
        vstd::array::axiom_spec_array_fill_for_copy_type::<u8, 256>(0u8);
        assert forall|x: [u8; 256]| (forall|j: int| 0 <= j < 256 ==> x@[j] == 0) implies #[trigger] x@ == zpaq_init().pred by { assert(x@ =~= zpaq_init().pred); }
    }
//@@ fn ZpaqHash.feed @C18 ~C01,C02,C03,C04
    ensures final(self).z() == zpaq_feed(old(self).z(), $1), r == final(self).hash.0,
//@@ body ZpaqHash.feed
    reveal(zpaq_mix);
