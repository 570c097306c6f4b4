//@@ uses
//@@ module
broadcast use super::group_bits;

impl<'a> Machine for Gear32<'a> {
    type A = u32;
    open spec fn init(&self) -> u32 { 0 }
    closed spec fn step(&self, a: u32, b: u8) -> u32 { gear_step(self.gear@, a, b) }
    closed spec fn hit(&self, a: u32, b: u8) -> bool { gear_step(self.gear@, a, b) & self.mask == self.xxx }
    open spec fn restart(&self, a: u32) -> u32 { 0 }
}

/// fp = (fp << 1) + table[byte], modulo 2^32
pub open spec fn gear_step(table: Seq<u32>, fp: u32, b: u8) -> u32 {
    (((fp << 1usize) + table[b as int]) % 0x1_0000_0000) as u32
}

/// The parameters `with_average_size_log2(n)` documents: the top n bits have to be zero.
pub open spec fn gear_params(p: Gear32<'_>, n: usize) -> bool {
    &&& p.mask == (!0u32) << ((32 - n) as usize)
    &&& p.xxx == 0
    &&& p.gear@ == gold_gear32()
}

pub proof fn lemma_msb_mask(n: usize)
    requires 1 <= n <= 31,
    ensures
        (1u32 << n) >= 1,
        ((1u32 << n) - 1) as u32 == !((!0u32) << n),
        (((1u32 << n) - 1) as u32) << ((32 - n) as usize) == (!0u32) << ((32 - n) as usize),
        !((!0u32) >> n) == (!0u32) << ((32 - n) as usize),
        !(((1u32 << ((32 - n) as usize)) - 1) as u32) == (!0u32) << ((32 - n) as usize),
        (1u32 << ((32 - n) as usize)) >= 1,
        u32::MAX == !0u32,
{
    assert(u32::MAX == !0u32) by (bit_vector);
    assert(!((!0u32) >> n) == (!0u32) << sub(32usize, n)) by (bit_vector) requires 1 <= n <= 31;
    assert((1u32 << sub(32usize, n)) >= 1u32) by (bit_vector) requires 1 <= n <= 31;
    assert(!sub(1u32 << sub(32usize, n), 1u32) == (!0u32) << sub(32usize, n)) by (bit_vector) requires 1 <= n <= 31;
    assert((1u32 << n) >= 1u32) by (bit_vector) requires 1 <= n <= 31;
    assert(sub(1u32 << n, 1u32) == !((!0u32) << n)) by (bit_vector) requires 1 <= n <= 31;
    assert(sub(1u32 << n, 1u32) << sub(32usize, n) == (!0u32) << sub(32usize, n)) by (bit_vector) requires 1 <= n <= 31;
}

/// "fp & mask == 0" for that mask says that the top n bits are zero.
pub proof fn lemma_top_bits(fp: u32, n: usize)
    requires 1 <= n <= 31,
    ensures fp & ((!0u32) << ((32 - n) as usize)) == 0 <==> fp >> ((32 - n) as usize) == 0, // @C13
{
    assert((fp & ((!0u32) << sub(32usize, n)) == 0) <==> (fp >> sub(32usize, n) == 0)) by (bit_vector) requires 1 <= n <= 31;
}

/// C04/C06/C13 in one: both interfaces run the same machine from its initial state, and a new
/// chunk starts like the first.
pub proof fn gear_interfaces(p: &Gear32<'_>, i: &GearIncr32<'_>, s: Seq<u8>)
    requires p.incr_start(i),
    ensures
        cuts(&i.mach(), i.abs(), s, 0) == cuts(&p.mach(), p.mach().init(), s, 0), // @C04
        forall|a: u32| #[trigger] p.mach().restart(a) == p.mach().init(), // @C06
{
}

//@@ impl GearIncr32.ChunkIncr
    type M = Gear32<'a>;
    open spec fn mach(&self) -> Gear32<'a> { self.params }
    open spec fn abs(&self) -> u32 { self.state.fp.0 }
    open spec fn inv(&self) -> bool { true }
    open spec fn cnt(&self) -> int { 0 }
    open spec fn report(&self, data: Seq<u8>, n: int) -> int { n }
    open spec fn progress(&self) -> bool { true }
//@@ fn GearIncr32.ChunkIncr.push @C13 ~C01,C03,C04,C05,C06
//@@ loop GearIncr32.ChunkIncr.push 0
    invariant
        self.params == old(self).params,
        run(&self.params, self.state.fp.0, $1@, $i as int) == run(&self.params, old(self).state.fp.0, $1@, 0),
//@@ impl Gear32.Chunk
    type M = Gear32<'a>;
    open spec fn mach(&self) -> Gear32<'a> { *self }
    open spec fn ok(&self) -> bool { true }
    open spec fn soff(st: &GearState32) -> int { 0 }
    open spec fn sinv(&self, st: &GearState32) -> bool { true }
    open spec fn scnt(st: &GearState32) -> int { 0 }
    open spec fn sabs(&self, st: &GearState32, kept: Seq<u8>) -> u32 { st.fp.0 }
    open spec fn window(&self) -> int { 0 }
//@@ fn Gear32.Chunk.to_search_state @C21 ~C02,C04,C06,C13
//@@ fn Gear32.Chunk.find_chunk_edge @C13 ~C01,C02,C04,C06,C09
//@@ loop Gear32.Chunk.find_chunk_edge 0
    invariant
        run(self, $1.fp.0, $2@, $i as int) == run(self, old($1).fp.0, $2@, 0),
//@@ impl Gear32.ToChunkIncr
    open spec fn incr_ok(&self) -> bool { true }
    open spec fn incr_start(&self, r: &GearIncr32<'a>) -> bool {
        r.mach() == *self && r.abs() == self.init() && r.inv() && r.cnt() == 0
    }
//@@ fn Gear32.ToChunkIncr.to_chunk_incr @C21 ~C04,C13
//@@ fn GearIncr32.From<&Gear32>.from @C21 ~C04,C13
    ensures r.params == *$1, r.state.fp.0 == 0,
//@@ fn GearState32.push @C13 ~C01
    ensures
        final(self).fp.0 == $1.step(old(self).fp.0, $2),
        r == $1.hit(old(self).fp.0, $2),
//@@ body GearState32.push
    proof { super::lemma_double_u32(self.fp.0); }
//@@ fn GearState32.reset @C06 ~C03,C04,C13
    ensures final(self).fp.0 == 0,
//@@ fn msb_mask @C21,C13 ~C01
    requires 1 <= $1 <= 31,
    ensures r == (!0u32) << ((32 - $1) as usize),
//@@ body msb_mask
    proof { lemma_msb_mask($1); }
//@@ fn Gear32.with_average_size_log2 @C21,C13 ~C01
    requires 1 <= $1 <= 31,
    ensures gear_params(r, $1),
//@@ fn Gear32.Default.default @C21,C13 ~C01
    ensures gear_params(r, 13),
//@@ gone Gear32.xxx
0u32
