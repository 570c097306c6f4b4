//@@ uses
use super::buzhash_table::*;
//@@ module
broadcast use super::group_bits;

/// The parameters as a machine: window `k`, byte hash `hf`, mask and limit.
pub struct BuzM { pub k: usize, pub mask: u32, pub max: u64, pub hf: spec_fn(u8) -> u32 }

/// (hash, the last (up to) k bytes since the cut, bytes since the cut)
impl Machine for BuzM {
    type A = (u32, Seq<u8>, int);
    open spec fn init(&self) -> (u32, Seq<u8>, int) { (0, Seq::empty(), 0) }
    closed spec fn step(&self, a: (u32, Seq<u8>, int), b: u8) -> (u32, Seq<u8>, int) { (buz_step(self, a, b), wpush(a.1, self.k as int, b), a.2 + 1) }
    closed spec fn hit(&self, a: (u32, Seq<u8>, int), b: u8) -> bool { buz_step(self, a, b) & self.mask == self.mask || a.2 + 1 > self.max }
    open spec fn restart(&self, a: (u32, Seq<u8>, int)) -> (u32, Seq<u8>, int) { (0, Seq::empty(), 0) }
}

pub open spec fn buz_step(m: &BuzM, a: (u32, Seq<u8>, int), b: u8) -> u32 {
    if a.1.len() >= m.k {
        rotl(a.0, 1) ^ rotl((m.hf)(a.1[0]), (m.k % 32) as int) ^ (m.hf)(b)
    } else {
        rotl(a.0, 1) ^ (m.hf)(b)
    }
}

pub open spec fn hash_fn<H: BuzHashHash>(h: H) -> spec_fn(u8) -> u32 { |b: u8| h.hash_spec(b) }

pub open spec fn buz_mach<H: BuzHashHash>(p: BuzHash<H>) -> BuzM {
    BuzM { k: p.k, mask: p.mask, max: p.max_chunk_size, hf: hash_fn(p.h) }
}

/// A hash's clones compute the same function: a condition on a caller's own hash, proved for the
/// provided ones (`provided_hashes`).
pub open spec fn hash_ok<H: BuzHashHash + Clone>(a: H) -> bool {
    forall|b: H| #[trigger] cloned(a, b) ==> hash_fn(a) == hash_fn(b)
}

pub proof fn provided_hashes<'a>(a: BuzHashTableHash<'a>, b: BuzHashTableBufHash, c: BuzHashTableByteSaltHash<'a>)
    ensures
        hash_ok(a), // @C11
        hash_ok(b), // @C11
        hash_ok(c), // @C11
{
    assert forall|y: BuzHashTableBufHash| #[trigger] cloned(b, y) implies hash_fn(b) == hash_fn(y) by {
        assert(y.table@ == b.table@);
        assert(hash_fn(b) =~= hash_fn(y));
    }
}

/// The cyclic polynomial of a window: every byte's value rotated by its distance from the end.
pub open spec fn buz_poly(hf: spec_fn(u8) -> u32, s: Seq<u8>) -> u32
    decreases s.len()
{
    if s.len() == 0 { 0 } else { rotl(hf(s[0]), (s.len() - 1) % 32) ^ buz_poly(hf, s.drop_first()) }
}

pub proof fn lemma_rotl1(x: u32, y: u32, n: int)
    requires 0 <= n < 32,
    ensures
        rotl(x ^ y, 1) == rotl(x, 1) ^ rotl(y, 1),
        rotl(rotl(x, n), 1) == rotl(x, (n + 1) % 32),
        rotl(0, 1) == 0,
{
    assert(((x ^ y) << 1u32) | ((x ^ y) >> 31u32) == ((x << 1u32) | (x >> 31u32)) ^ ((y << 1u32) | (y >> 31u32))) by (bit_vector);
    let k = n as u32;
    if 0 < k < 31 {
        let z = (x << k) | (x >> sub(32u32, k));
        assert((z << 1u32) | (z >> 31u32) == (x << add(k, 1u32)) | (x >> sub(31u32, k))) by (bit_vector)
            requires 0 < k < 31, z == (x << k) | (x >> sub(32u32, k));
    } else if k == 31 {
        let z = (x << 31u32) | (x >> 1u32);
        assert((z << 1u32) | (z >> 31u32) == x) by (bit_vector) requires z == (x << 31u32) | (x >> 1u32);
    }
    assert((0u32 << 1u32) | (0u32 >> 31u32) == 0) by (bit_vector);
}

pub proof fn lemma_poly_push(hf: spec_fn(u8) -> u32, s: Seq<u8>, b: u8)
    ensures buz_poly(hf, s.push(b)) == rotl(buz_poly(hf, s), 1) ^ hf(b),
    decreases s.len()
{
    let x = hf(b);
    if s.len() == 0 {
        assert(s.push(b).drop_first() =~= Seq::empty());
        lemma_rotl1(0, 0, 0);
        assert(x ^ 0 == 0 ^ x) by (bit_vector);
        assert(buz_poly(hf, Seq::<u8>::empty()) == 0);
        assert(buz_poly(hf, s.push(b)) == rotl(x, 0) ^ buz_poly(hf, s.push(b).drop_first()));
        assert(buz_poly(hf, s) == 0);
    } else {
        lemma_poly_push(hf, s.drop_first(), b);
        assert(s.push(b).drop_first() =~= s.drop_first().push(b));
        let n = (s.len() - 1) % 32;
        let y = hf(s[0]);
        lemma_rotl1(y, 0, n);
        lemma_rotl1(rotl(y, n), buz_poly(hf, s.drop_first()), 0);
        assert((n + 1) % 32 == (s.len() as int) % 32);
        let u = rotl(y, (n + 1) % 32);
        let v = rotl(buz_poly(hf, s.drop_first()), 1);
        assert(buz_poly(hf, s.push(b)) == u ^ buz_poly(hf, s.push(b).drop_first()));
        assert(buz_poly(hf, s.push(b).drop_first()) == v ^ x);
        assert(rotl(buz_poly(hf, s), 1) == u ^ v);
        assert(u ^ (v ^ x) == (u ^ v) ^ x) by (bit_vector);
    }
}

/// C07/C11: hash and window are functions of the last (up to) k bytes since the cut.
pub proof fn buz_window(m: &BuzM, s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), m.k >= 1,
    ensures
        state_at(m, m.init(), s, 0, n).1 == tail(s.take(n), m.k as int), // @C07,C11
        state_at(m, m.init(), s, 0, n).0 == buz_poly(m.hf, tail(s.take(n), m.k as int)), // @C07,C11
        state_at(m, m.init(), s, 0, n).2 == n, // @C07,C08,C11
    decreases n
{
    let k = m.k as int;
    if n == 0 {
        assert(s.take(0) =~= Seq::empty());
    } else {
        buz_window(m, s, n - 1);
        lemma_state_step(m, m.init(), s, 0, n - 1);
        lemma_tail_step(s, n - 1, k);
        let win = tail(s.take(n - 1), k);
        let b = s[n - 1];
        if win.len() >= k {
            let t = win.drop_first();
            lemma_poly_push(m.hf, t, b);
            let y = (m.hf)(win[0]);
            lemma_rotl1(y, 0, (k - 1) % 32);
            lemma_rotl1(rotl(y, (k - 1) % 32), buz_poly(m.hf, t), 0);
            assert(((k - 1) % 32 + 1) % 32 == k % 32);
            let u = rotl(y, k % 32);
            let v = rotl(buz_poly(m.hf, t), 1);
            let x = (m.hf)(b);
            assert((u ^ v) ^ u ^ x == v ^ x) by (bit_vector);
        } else {
            lemma_poly_push(m.hf, win, b);
        }
    }
}

pub open spec fn buz_cuts_at(m: &BuzM, s: Seq<u8>, n: int) -> bool {
    buz_poly(m.hf, tail(s.take(n), m.k as int)) & m.mask == m.mask || n > m.max
}

pub proof fn lemma_buz_hit(m: &BuzM, s: Seq<u8>, n: int)
    requires 0 < n <= s.len(), m.k >= 1,
    ensures m.hit(state_at(m, m.init(), s, 0, n - 1), s[n - 1]) == buz_cuts_at(m, s, n), // @C11,C07
{
    buz_window(m, s, n - 1);
    buz_window(m, s, n);
    lemma_state_step(m, m.init(), s, 0, n - 1);
}

/// C11/C08: the first cut is the first position where the polynomial of the window has all bits of
/// the mask or the chunk is longer than the limit: so no chunk is longer than limit + 1.
pub proof fn buz_cut(m: &BuzM, s: Seq<u8>)
    requires m.k >= 1,
    ensures
        match run(m, m.init(), s, 0).0 {
            Some(n) => 0 < n <= s.len() && buz_cuts_at(m, s, n) && forall|j: int| 0 < j < n ==> !#[trigger] buz_cuts_at(m, s, j), // @C11,C07
            None => forall|j: int| 0 < j <= s.len() ==> !#[trigger] buz_cuts_at(m, s, j), // @C11,C07
        },
        run(m, m.init(), s, 0).0 matches Some(n) ==> n <= m.max + 1, // @C08
        run(m, m.init(), s, 0).0 is None ==> s.len() <= m.max, // @C08
{
    lemma_run_state(m, m.init(), s, 0);
    let last = match run(m, m.init(), s, 0).0 { Some(n) => n - 1, None => s.len() as int };
    assert forall|j: int| 0 < j <= last implies !#[trigger] buz_cuts_at(m, s, j) by {
        lemma_buz_hit(m, s, j);
        assert(!m.hit(state_at(m, m.init(), s, 0, j - 1), s[j - 1]));
    }
    if last < s.len() { lemma_buz_hit(m, s, last + 1); }
    if last > m.max { assert(!buz_cuts_at(m, s, last)); }
}

pub proof fn buz_interfaces<H: BuzHashHash + Clone>(p: &BuzHash<H>, i: &BuzHashIncr<H>, s: Seq<u8>)
    requires p.incr_start(i),
    ensures
        cuts(&i.mach(), i.abs(), s, 0) == cuts(&p.mach(), p.mach().init(), s, 0), // @C04
        forall|a: (u32, Seq<u8>, int)| #[trigger] p.mach().restart(a) == p.mach().init(), // @C06
{
}

/// the last n elements
pub open spec fn lastn(r: Seq<u8>, n: int) -> Seq<u8> { r.subrange(r.len() - n, r.len() as int) }

pub proof fn lemma_lastn(r: Seq<u8>, b: u8)
    ensures
        lastn(r, 0) == Seq::<u8>::empty(),
        lastn(r, r.len() as int) == r,
        forall|n: int| 0 <= n < r.len() ==> #[trigger] lastn(r.drop_first().push(b), n + 1) == lastn(r, n).push(b),
{
    assert(lastn(r, 0) =~= Seq::<u8>::empty());
    assert(lastn(r, r.len() as int) =~= r);
    assert forall|n: int| 0 <= n < r.len() implies #[trigger] lastn(r.drop_first().push(b), n + 1) == lastn(r, n).push(b) by {
        assert(lastn(r.drop_first().push(b), n + 1) =~= lastn(r, n).push(b));
    }
}

impl<H: BuzHashHash> BuzHashIncr<H> {
    pub open spec fn win(&self) -> Seq<u8> {
        lastn(ring(self.buf@, self.buf_idx.0 as int), if self.input_idx < self.params.k { self.input_idx as int } else { self.params.k as int })
    }
    pub open spec fn abs_b(&self) -> (u32, Seq<u8>, int) { (self.state.h, self.win(), self.input_idx as int) }
    pub open spec fn wf(&self) -> bool {
        &&& self.params.k >= 1
        &&& self.buf@.len() == self.params.k
        &&& self.buf_idx.0 < self.params.k
    }
}

//@@ trait BuzHashHash
    /// ghost: the function a hash computes
    spec fn hash_spec(&self, b: u8) -> u32;
//@@ fn BuzHashHash.hash
    ensures r == self.hash_spec($1),
//@@ derive BuzHash.Clone
    ensures r.k == self.k, r.mask == self.mask, r.max_chunk_size == self.max_chunk_size, cloned(self.h, r.h)
//@@ derive BuzHashIncr.Clone
    ensures r.state == self.state, r.buf_idx == self.buf_idx, r.input_idx == self.input_idx
//@@ fn BuzHash.new @C21 ~C11
    requires $1 > 0,
    ensures r.k == $1, r.mask == $2, r.h == $3, r.max_chunk_size == $4,
//@@ fn BuzHash.new_nom @C21 ~C11
    ensures r.k == 67, r.mask == 0xfff, r.max_chunk_size == 0x100_0000, r.h.salt == $1, r.h.table@ == gold_go_buzhash(),
//@@ body BuzHash.new_nom
    assert((1u32 << 12u32) == 0x1000 && (1u64 << 24u32) == 0x100_0000 && (1u64 << 24i32) == 0x100_0000) by (bit_vector);
//@@ impl BuzHash.Chunk
    type M = BuzM;
    open spec fn mach(&self) -> BuzM { buz_mach(*self) }
    open spec fn ok(&self) -> bool { self.k >= 1 }
    open spec fn soff(st: &BuzHashSearchState) -> int { st.offset as int }
    open spec fn sinv(&self, st: &BuzHashSearchState) -> bool { true }
    open spec fn scnt(st: &BuzHashSearchState) -> int { st.input_idx as int }
    open spec fn sabs(&self, st: &BuzHashSearchState, kept: Seq<u8>) -> (u32, Seq<u8>, int) { (st.state.h, tail(kept, self.k as int), st.input_idx as int) }
    open spec fn window(&self) -> int { self.k as int }
//@@ fn BuzHash.Chunk.to_search_state @C21 ~C02,C04,C06,C11
//@@ fn BuzHash.Chunk.find_chunk_edge @C11 ~C01,C02,C04,C06,C07,C08,C09
//@@ loop BuzHash.Chunk.find_chunk_edge 0
    invariant
        old($1).offset <= $i,
        $1.offset == old($1).offset,
        $1.input_idx == old($1).input_idx + ($i - old($1).offset),
        run(&buz_mach(*self), ($1.state.h, tail($2@.take($i as int), self.k as int), $1.input_idx as int), $2@, $i as int)
            == run(&buz_mach(*self), self.sabs(old($1), $2@.take(old($1).offset as int)), $2@, old($1).offset as int),
//@@ loopbody BuzHash.Chunk.find_chunk_edge 0
    proof {
        lemma_tail_step($2@, $i - 1, self.k as int);
        assert(tail($2@.subrange($i as int, $i as int), self.k as int) =~= Seq::empty());
    }
//@@ loopafter BuzHash.Chunk.find_chunk_edge 0
    proof { lemma_tail_keep($2@, if $2@.len() > self.k { $2@.len() - self.k } else { 0 }, self.k as int); }
//@@ fn BuzHashIncr.From<&BuzHash<H>>.from @C21 ~C04,C11
    ensures r.params.k == $1.k, hash_ok($1.h) ==> buz_mach(r.params) == buz_mach(*$1), r.state.h == 0, r.buf@.len() == $1.k, $1.k >= 1 ==> r.buf_idx.0 < $1.k, r.input_idx == 0,
//@@ impl BuzHash.ToChunkIncr
    open spec fn incr_ok(&self) -> bool { self.k >= 1 && hash_ok(self.h) }
    open spec fn incr_start(&self, r: &BuzHashIncr<H>) -> bool {
        r.mach() == buz_mach(*self) && r.abs() == buz_mach(*self).init() && r.inv() && r.cnt() == 0
    }
//@@ fn BuzHash.ToChunkIncr.to_chunk_incr @C21 ~C04,C11
//@@ body BuzHash.ToChunkIncr.to_chunk_incr
    proof { assert forall|x: Seq<u8>| #[trigger] lastn(x, 0) == Seq::<u8>::empty() by { assert(lastn(x, 0) =~= Seq::<u8>::empty()); } }
//@@ derive BuzHashTableBufHash.Clone
    ensures r.table@ =~= self.table@
//@@ fn BuzHashSearchState.reset @C06 ~C02,C04,C11
    ensures final(self).offset == 0, final(self).input_idx == 0, final(self).state.h == 0,
//@@ fn BuzHashState.reset @C06 ~C02,C04,C11
    ensures final(self).h == 0,
//@@ fn BuzHashState.add_buf @C11 ~C01,C02,C04,C07
    requires $2.k >= 1, $3 < $1@.len(),
    ensures final(self).h == buz_step(&buz_mach(*$2), (old(self).h, tail($1@.take($3 as int), $2.k as int), 0), $1@[$3 as int]),
//@@ body BuzHashState.add_buf
    proof { lemma_tail_step($1@, $3 as int, $2.k as int); }
    broadcast use super::group_xor;
//@@ body BuzHashState.add
    broadcast use super::group_xor;
//@@ body BuzHashState.add_overflow
    broadcast use super::group_xor;
//@@ fn BuzHashState.add @C11 ~C02,C03,C04,C07
    ensures final(self).h == rotl(old(self).h, 1) ^ $1.h.hash_spec($2),
//@@ fn BuzHashState.add_overflow @C11 ~C02,C03,C04,C07
    requires $1.k >= 1,
    ensures final(self).h == rotl(old(self).h, 1) ^ rotl($1.h.hash_spec($3), ($1.k % 32) as int) ^ $1.h.hash_spec($2),
//@@ impl BuzHashIncr.ChunkIncr
    type M = BuzM;
    open spec fn mach(&self) -> BuzM { buz_mach(self.params) }
    open spec fn abs(&self) -> (u32, Seq<u8>, int) { self.abs_b() }
    open spec fn inv(&self) -> bool { self.wf() }
    open spec fn cnt(&self) -> int { self.input_idx as int }
    open spec fn report(&self, data: Seq<u8>, n: int) -> int { n }
    open spec fn progress(&self) -> bool { true }
//@@ fn BuzHashIncr.ChunkIncr.push @C11 ~C01,C03,C04,C05,C06,C07,C08
//@@ loop BuzHashIncr.ChunkIncr.push 0
    invariant
        self.params == old(self).params,
        self.wf(),
        self.input_idx == old(self).input_idx + $i,
        run(&buz_mach(self.params), self.abs_b(), $1@, $i as int) == run(&buz_mach(self.params), old(self).abs_b(), $1@, 0),
//@@ fn BuzHashIncr.reset @C06 ~C03,C04,C11
    requires old(self).wf(),
    ensures final(self).params == old(self).params, final(self).wf(), final(self).abs_b() == (0u32, Seq::<u8>::empty(), 0int),
//@@ body BuzHashIncr.reset
    proof { assert forall|x: Seq<u8>| #[trigger] lastn(x, 0) == Seq::<u8>::empty() by { assert(lastn(x, 0) =~= Seq::<u8>::empty()); } }
//@@ fn BuzHashIncr.push_byte @C11 ~C01,C03,C04,C07
    requires old(self).wf(), old(self).input_idx < 0xffff_ffff_ffff_ffff,
    ensures
        final(self).params == old(self).params,
        final(self).wf(),
        final(self).input_idx == old(self).input_idx + 1,
        final(self).abs_b() == buz_mach(old(self).params).step(old(self).abs_b(), $1),
//@@ body BuzHashIncr.push_byte
    proof {
        lemma_ring_step(self.buf@, self.buf_idx.0 as int, $1);
        lemma_wrap_index(self.buf_idx.0 as int, self.params.k as int);
        let r = ring(self.buf@, self.buf_idx.0 as int);
        lemma_lastn(r, $1);
        lemma_lastn(r.drop_first().push($1), $1);
        if self.input_idx < self.params.k { assert(lastn(r.drop_first().push($1), self.input_idx + 1) == self.win().push($1)); }
    }
//@@ fn BuzHashIncr.From<BuzHash<H>>.from @C21 ~C04,C11
    ensures r.params == $1, r.state.h == 0, r.buf@.len() == $1.k, $1.k >= 1 ==> r.buf_idx.0 < $1.k, r.input_idx == 0,
//@@ fn BuzHashTableHash.From<&[u32;256]>.from @C11
    ensures r.table == $1,
//@@ impl BuzHashTableHash.BuzHashHash
    open spec fn hash_spec(&self, b: u8) -> u32 { self.table@[b as int] }
//@@ fn BuzHashTableHash.BuzHashHash.hash @C11
//@@ fn BuzHashTableBufHash.From<Box<[u32;256]>>.from @C11
    ensures r.table == $1,
//@@ impl BuzHashTableBufHash.BuzHashHash
    open spec fn hash_spec(&self, b: u8) -> u32 { self.table@[b as int] }
//@@ fn BuzHashTableBufHash.BuzHashHash.hash @C11
//@@ fn BuzHashTableByteSaltHash.From<(u8,&[u32;256])>.from @C11
    ensures r.table == $1.1, r.salt == $1.0,
//@@ impl BuzHashTableByteSaltHash.BuzHashHash
    open spec fn hash_spec(&self, b: u8) -> u32 { self.table@[(b ^ self.salt) as int] }
//@@ fn BuzHashTableByteSaltHash.BuzHashHash.hash @C11
