//@@ module
broadcast use {super::group_bits, super::lemma_xor_comm_u32};
impl Machine for PigzRsyncable {
    type A = u32;
    open spec fn init(&self) -> u32 { self.hit }
    closed spec fn step(&self, a: u32, b: u8) -> u32 { ((a << 1u32) ^ (b as u32)) & self.mask }
    closed spec fn hit(&self, a: u32, b: u8) -> bool { ((a << 1u32) ^ (b as u32)) & self.mask == self.hit }
    open spec fn restart(&self, a: u32) -> u32 { self.hit }
}

/// The parameters `with_bits(n)` documents: mask 2^n - 1 and hit mask >> 1.
pub open spec fn pigz_params(p: PigzRsyncable, n: u8) -> bool {
    &&& p.bits == n
    &&& p.mask == !((!0u32) << n)
    &&& p.hit == p.mask >> 1u32
}

pub proof fn lemma_pigz_mask(n: u8)
    requires n <= 31,
    ensures
        (1u32 << n) >= 1, ((1u32 << n) - 1) as u32 == !((!0u32) << n),
        u32::MAX == !0u32,
        n >= 1 ==> (!0u32) >> ((32 - n) as u8) == !((!0u32) << n),
        forall|m: u32| #[trigger] (m >> 1u32) == m / 2,
{
    assert(u32::MAX == !0u32) by (bit_vector);
    if n >= 1 { assert((!0u32) >> sub(32u8, n) == !((!0u32) << n)) by (bit_vector) requires 1 <= n <= 31; }
    assert forall|m: u32| #[trigger] (m >> 1u32) == m / 2 by { assert(m >> 1u32 == m / 2) by (bit_vector); }
    assert((1u32 << n) >= 1u32) by (bit_vector) requires n <= 31;
    assert(sub(1u32 << n, 1u32) == !((!0u32) << n)) by (bit_vector) requires n <= 31;
}

pub proof fn pigz_interfaces(p: &PigzRsyncable, i: &PigzRsyncableIncr, s: Seq<u8>)
    requires p.incr_start(i),
    ensures
        cuts(&i.mach(), i.abs(), s, 0) == cuts(&p.mach(), p.mach().init(), s, 0), // @C04
        forall|a: u32| #[trigger] p.mach().restart(a) == p.mach().init(), // @C06
{
}

//@@ fn PigzRsyncable.with_bits @C21,C16 ~C01
    requires $1 <= 31,
    ensures pigz_params(r, $1),
//@@ body PigzRsyncable.with_bits
    proof { lemma_pigz_mask($1); }
//@@ fn PigzRsyncable.Default.default @C21,C16
    ensures pigz_params(r, 12),
//@@ impl PigzRsyncable.Chunk
    type M = PigzRsyncable;
    open spec fn mach(&self) -> PigzRsyncable { *self }
    open spec fn ok(&self) -> bool { true }
    open spec fn soff(st: &PigzRsyncableSearchState) -> int { 0 }
    open spec fn sinv(&self, st: &PigzRsyncableSearchState) -> bool { true }
    open spec fn scnt(st: &PigzRsyncableSearchState) -> int { 0 }
    open spec fn sabs(&self, st: &PigzRsyncableSearchState, kept: Seq<u8>) -> u32 { st.state.hash }
    open spec fn window(&self) -> int { 0 }
//@@ fn PigzRsyncable.Chunk.to_search_state @C21 ~C02,C04,C06,C16
//@@ fn PigzRsyncable.Chunk.find_chunk_edge @C16 ~C01,C02,C04,C06,C09
//@@ loop PigzRsyncable.Chunk.find_chunk_edge 0
    invariant
        run(self, $1.state.hash, $2@, $i as int) == run(self, old($1).state.hash, $2@, 0),
//@@ fn PigzRsyncableIncr.From<&PigzRsyncable>.from @C21 ~C04,C16
    ensures r.params == *$1, r.state.hash == $1.hit,
//@@ impl PigzRsyncable.ToChunkIncr
    open spec fn incr_ok(&self) -> bool { true }
    open spec fn incr_start(&self, r: &PigzRsyncableIncr) -> bool {
        r.mach() == *self && r.abs() == self.init() && r.inv() && r.cnt() == 0
    }
//@@ fn PigzRsyncable.ToChunkIncr.to_chunk_incr @C21 ~C04,C16
//@@ fn PigzRsyncableState.From<&PigzRsyncable>.from @C21,C16 ~C04,C06
    ensures r.hash == $1.hit,
//@@ fn PigzRsyncableSearchState.From<&PigzRsyncable>.from @C21,C16 ~C04,C06
    ensures r.state.hash == $1.hit,
//@@ fn PigzRsyncableIncr.From<PigzRsyncable>.from @C21 ~C04,C16
    ensures r.params == $1, r.state.hash == $1.hit,
//@@ fn PigzRsyncableState.add @C16 ~C01
    ensures
        final(self).hash == $1.step(old(self).hash, $2),
        r == $1.hit(old(self).hash, $2),
//@@ body PigzRsyncableState.add
    proof { super::lemma_double_u32(self.hash); }
//@@ impl PigzRsyncableIncr.ChunkIncr
    type M = PigzRsyncable;
    open spec fn mach(&self) -> PigzRsyncable { self.params }
    open spec fn abs(&self) -> u32 { self.state.hash }
    open spec fn inv(&self) -> bool { true }
    open spec fn cnt(&self) -> int { 0 }
    open spec fn report(&self, data: Seq<u8>, n: int) -> int { n }
    open spec fn progress(&self) -> bool { true }
//@@ fn PigzRsyncableIncr.ChunkIncr.push @C16 ~C01,C03,C04,C05,C06
//@@ loop PigzRsyncableIncr.ChunkIncr.push 0
    invariant
        self.params == old(self).params,
        run(&self.params, self.state.hash, $1@, $i as int) == run(&self.params, old(self).state.hash, $1@, 0),
//@@ gone PigzRsyncable.hit
(%.mask >> 1u32)
