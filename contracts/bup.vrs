//@@ uses
//@@ module
broadcast use super::group_bits;

/// (s1, s2, window of always `window_len` bytes, starting with zeros)
impl Machine for RollSum {
    type A = (u32, u32, Seq<u8>);
    open spec fn init(&self) -> (u32, u32, Seq<u8>) { bup_init(self.window_len) }
    closed spec fn step(&self, a: (u32, u32, Seq<u8>), b: u8) -> (u32, u32, Seq<u8>) { bup_step(self.window_len, a, b) }
    closed spec fn hit(&self, a: (u32, u32, Seq<u8>), b: u8) -> bool { bup_split(bup_step(self.window_len, a, b).1) }
    open spec fn restart(&self, a: (u32, u32, Seq<u8>)) -> (u32, u32, Seq<u8>) { bup_init(self.window_len) }
}

pub open spec fn w32(x: int) -> u32 { (x % 0x1_0000_0000) as u32 }

pub open spec fn zeros(w: int) -> Seq<u8> { Seq::new(w as nat, |i: int| 0u8) }

/// bup: s1 = w * 31, s2 = w * (w - 1) * 31
pub open spec fn bup_init(w: usize) -> (u32, u32, Seq<u8>) {
    let ws = w as u32;
    (w32(ws * 31), w32(w32(ws * w32(ws - 1)) * 31), zeros(w as int))
}

/// bup: s1 += add - drop; s2 += s1 - w * (drop + 31)
pub open spec fn bup_sums(w: usize, s1: u32, s2: u32, drop: u8, add: u8) -> (u32, u32) {
    let t1 = w32(w32(s1 + add) - drop);
    (t1, w32(w32(s2 + t1) - w32((w as u32) * w32(drop + 31))))
}

pub open spec fn bup_step(w: usize, a: (u32, u32, Seq<u8>), b: u8) -> (u32, u32, Seq<u8>) {
    let s = bup_sums(w, a.0, a.1, a.2[0], b);
    (s.0, s.1, a.2.drop_first().push(b))
}

/// bup: split where the low 13 bits of the digest are all ones
pub open spec fn bup_split(s2: u32) -> bool { s2 & 0x1fff == 0x1fff }

pub open spec fn bup_digest(s1: u32, s2: u32) -> u32 { (s1 << 16usize) | (s2 & 0xffff) }

pub proof fn lemma_bup_digest(s1: u32, s2: u32)
    ensures
        (((s1 << 16usize) | (s2 & 0xffff)) & 0x1fff == 0x1fff) <==> bup_split(s2),
        (1u32 << 13usize) == 0x2000,
        // other ways to ask for the same bits
        s2 % 0x2000 == s2 & 0x1fff,
        ((s1 << 16usize) | (s2 & 0xffff)) % 0x2000 == s2 & 0x1fff,
        (!s2 & 0x1fff == 0) == (s2 & 0x1fff == 0x1fff),
        (!((s1 << 16usize) | (s2 & 0xffff)) & 0x1fff == 0) == (s2 & 0x1fff == 0x1fff),
        0x1fff & s2 == s2 & 0x1fff,
        s2 % 0x1_0000 == s2 & 0xffff,
        (s1 << 16usize) + (s2 & 0xffff) == (s1 << 16usize) | (s2 & 0xffff),
        (s2 & 0xffff) | (s1 << 16usize) == (s1 << 16usize) | (s2 & 0xffff),
        (s1 << 16usize) ^ (s2 & 0xffff) == (s1 << 16usize) | (s2 & 0xffff),
        (s2 as u16) as u32 == s2 & 0xffff,
        s1 << 16usize == (s1 * 0x1_0000) % 0x1_0000_0000,
{
    assert(s2 % 0x1_0000 == s2 & 0xffff) by (bit_vector);
    assert(add(s1 << 16usize, s2 & 0xffff) == (s1 << 16usize) | (s2 & 0xffff)) by (bit_vector);
    assert((s1 << 16usize) <= 0xffff_0000 && (s2 & 0xffff) <= 0xffff) by (bit_vector);
    assert((s2 & 0xffff) | (s1 << 16usize) == (s1 << 16usize) | (s2 & 0xffff)) by (bit_vector);
    assert((s1 << 16usize) ^ (s2 & 0xffff) == (s1 << 16usize) | (s2 & 0xffff)) by (bit_vector);
    assert((s2 as u16) as u32 == s2 & 0xffff) by (bit_vector);
    assert(s1 << 16usize == mul(s1 % 0x1_0000, 0x1_0000)) by (bit_vector);
    assert(s2 % 0x2000 == s2 & 0x1fff) by (bit_vector);
    assert(((s1 << 16usize) | (s2 & 0xffff)) % 0x2000 == s2 & 0x1fff) by (bit_vector);
    assert((!s2 & 0x1fff == 0) == (s2 & 0x1fff == 0x1fff)) by (bit_vector);
    assert((!((s1 << 16usize) | (s2 & 0xffff)) & 0x1fff == 0) == (s2 & 0x1fff == 0x1fff)) by (bit_vector);
    assert(0x1fff & s2 == s2 & 0x1fff) by (bit_vector);
    assert(((s1 << 16usize) | (s2 & 0xffff)) & 0x1fff == s2 & 0x1fff) by (bit_vector);
    assert((1u32 << 13usize) == 0x2000) by (bit_vector);
}

/// C10: the split position is the bup one: the low 13 bits of the digest.
pub proof fn bup_split_is_digest(s1: u32, s2: u32)
    ensures bup_split(s2) <==> bup_digest(s1, s2) & 0x1fff == 0x1fff, // @C10
{
    lemma_bup_digest(s1, s2);
}

/// The last `w` bytes of zeros followed by `kept`.
pub open spec fn zwin(w: int, kept: Seq<u8>) -> Seq<u8> { tail(zeros(w) + kept, w) }

pub proof fn lemma_zwin_step(w: int, s: Seq<u8>, i: int)
    requires 0 <= i < s.len(), w >= 1,
    ensures
        zwin(w, s.take(i + 1)) == zwin(w, s.take(i)).drop_first().push(s[i]),
        zwin(w, s.take(i)).len() == w,
        zwin(w, s.take(i))[0] == if i >= w { s[i - w] } else { 0 },
{
    assert(zwin(w, s.take(i + 1)) =~= zwin(w, s.take(i)).drop_first().push(s[i]));
}

pub proof fn lemma_zwin_keep(w: int, s: Seq<u8>)
    requires w >= 1,
    ensures
        zwin(w, s.subrange(if s.len() > w { s.len() - w } else { 0 }, s.len() as int)) == zwin(w, s),
        s.take(s.len() as int) == s,
{
    let d = if s.len() > w { s.len() - w } else { 0 };
    assert(zwin(w, s.subrange(d, s.len() as int)) =~= zwin(w, s));
    assert(s.take(s.len() as int) =~= s);
}

pub proof fn lemma_zwin_empty(w: int, s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), w >= 0,
    ensures zwin(w, s.subrange(n, n)) == zeros(w), zwin(w, Seq::empty()) == zeros(w), zwin(w, s.take(0)) == zeros(w),
{
    assert(zwin(w, s.subrange(n, n)) =~= zeros(w));
    assert(zwin(w, Seq::empty()) =~= zeros(w));
    assert(zwin(w, s.take(0)) =~= zeros(w));
}

// ---- C07: the sums are functions of the window
/// sum of (byte + 31)
pub open spec fn bup_a(win: Seq<u8>) -> int
    decreases win.len()
{
    if win.len() == 0 { 0 } else { bup_a(win.drop_last()) + win.last() + 31 }
}
/// sum of (byte + 31), weighted: newest 1, the one before 2, ...
pub open spec fn bup_b(win: Seq<u8>) -> int
    decreases win.len()
{
    if win.len() == 0 { 0 } else { bup_b(win.drop_last()) + bup_a(win) }
}

pub proof fn lemma_bup_front(s: Seq<u8>)
    requires s.len() > 0,
    ensures
        bup_a(s) == s[0] + 31 + bup_a(s.drop_first()),
        bup_b(s) == s.len() * (s[0] + 31) + bup_b(s.drop_first()),
    decreases s.len()
{
    if s.len() > 1 {
        lemma_bup_front(s.drop_last());
        assert(s.drop_last().drop_first() =~= s.drop_first().drop_last());
        let n = s.len() as int;
        let d = s[0] + 31;
        let x = s.drop_last().drop_first();
        assert(bup_a(s) == d + bup_a(s.drop_first()));
        assert(s.drop_last().len() == n - 1 && s.drop_last()[0] == s[0]);
        assert(bup_b(s.drop_last()) == (n - 1) * d + bup_b(x));
        assert(bup_b(s.drop_first()) == bup_b(x) + bup_a(s.drop_first()));
        assert((n - 1) * d + d == n * d) by (nonlinear_arith);
        assert(s.len() * (s[0] + 31) == n * d);
    } else {
        assert(s.drop_last() =~= s.drop_first());
        assert(bup_a(s) == s[0] + 31) by { assert(bup_a(s.drop_last()) == 0); }
        assert(bup_b(s) == s[0] + 31) by { assert(bup_b(s.drop_last()) == 0); }
        assert(bup_b(s.drop_first()) == 0 && bup_a(s.drop_first()) == 0);
        assert(s.len() * (s[0] + 31) == 1 * (s[0] + 31));
    }
}

pub proof fn lemma_bup_roll(win: Seq<u8>, b: u8)
    requires win.len() > 0,
    ensures
        bup_a(win.drop_first().push(b)) == bup_a(win) - win[0] + b,
        bup_b(win.drop_first().push(b)) == bup_b(win) - win.len() * (win[0] + 31) + bup_a(win.drop_first().push(b)),
{
    let t = win.drop_first();
    assert(t.push(b).drop_last() =~= t);
    lemma_bup_front(win);
}

pub proof fn lemma_bup_zeros(w: int)
    requires w >= 0,
    ensures bup_a(zeros(w)) == 31 * w,
    decreases w
{
    if w > 0 {
        lemma_bup_zeros(w - 1);
        assert(zeros(w).drop_last() =~= zeros(w - 1));
    }
}

pub open spec fn bup_k(w: usize) -> int { bup_init(w).1 - bup_b(zeros(w as int)) }

pub open spec fn bup_closed(w: usize, a: (u32, u32, Seq<u8>)) -> bool {
    &&& a.2.len() == w
    &&& a.0 == w32(bup_a(a.2))
    &&& a.1 == w32(bup_b(a.2) + bup_k(w))
}

pub proof fn lemma_bup_closed_step(w: usize, a: (u32, u32, Seq<u8>), b: u8)
    requires bup_closed(w, a), 1 <= w, w <= 0xffff_ffff,
    ensures bup_closed(w, bup_step(w, a, b)),
{
    let d = a.2[0];
    let n = a.2.drop_first().push(b);
    lemma_bup_roll(a.2, b);
    let A = bup_a(a.2);
    let t1 = bup_step(w, a, b).0;
    lemma_mod_s1(A, b as int, d as int);
    assert(t1 == bup_a(n) % 0x1_0000_0000);
    let B = bup_b(a.2) + bup_k(w);
    let P = (w as int) * (d + 31);
    assert((w as u32) as int == w as int);
    assert(w32(d + 31) == d + 31);
    let N = bup_a(n);
    assert(bup_step(w, a, b).1 == (((B % 0x1_0000_0000 + t1) % 0x1_0000_0000) - (P % 0x1_0000_0000)) % 0x1_0000_0000);
    lemma_mod_s2(B, N, P);
    assert(bup_b(n) + bup_k(w) == B + N - P) by (nonlinear_arith)
        requires bup_b(n) == bup_b(a.2) - a.2.len() * (d + 31) + N, B == bup_b(a.2) + bup_k(w), P == (w as int) * (d + 31), a.2.len() == w;
}

pub proof fn lemma_mod_s1(A: int, b: int, d: int)
    ensures (((A % 0x1_0000_0000 + b) % 0x1_0000_0000) - d) % 0x1_0000_0000 == (A - d + b) % 0x1_0000_0000,
{
}

pub proof fn lemma_mod_s2(B: int, N: int, P: int)
    ensures (((B % 0x1_0000_0000 + N % 0x1_0000_0000) % 0x1_0000_0000) - (P % 0x1_0000_0000)) % 0x1_0000_0000 == (B + N - P) % 0x1_0000_0000,
{
}

pub proof fn lemma_bup_closed_init(w: usize)
    requires 1 <= w <= 0xffff_ffff,
    ensures bup_closed(w, (bup_init(w).0, bup_init(w).1, zeros(w as int))),
{
    lemma_bup_zeros(w as int);
    let k = bup_init(w).1;
    assert(bup_b(zeros(w as int)) + bup_k(w) == k);
    assert((k as int) % 0x1_0000_0000 == k);
    assert((w as u32) as int == w as int);
}

/// C07: window and sums after n bytes depend on the last `window_len` bytes only.
pub proof fn bup_window(p: &RollSum, s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), 1 <= p.window_len <= 0xffff_ffff,
    ensures
        bup_closed(p.window_len, state_at(p, p.init(), s, 0, n)), // @C07,C10
        state_at(p, p.init(), s, 0, n).2 == zwin(p.window_len as int, s.take(n)), // @C07,C10
        n >= p.window_len ==> zwin(p.window_len as int, s.take(n)) == tail(s.take(n), p.window_len as int), // @C07
    decreases n
{
    let w = p.window_len as int;
    if n == 0 {
        lemma_zwin_empty(w, s, 0);
        lemma_bup_zeros(w);
        lemma_bup_closed_init(p.window_len);
    } else {
        bup_window(p, s, n - 1);
        lemma_state_step(p, p.init(), s, 0, n - 1);
        lemma_zwin_step(w, s, n - 1);
        lemma_bup_closed_step(p.window_len, state_at(p, p.init(), s, 0, n - 1), s[n - 1]);
    }
    if n >= w { assert(zwin(w, s.take(n)) =~= tail(s.take(n), w)); }
}

impl RollSumIncr {
    pub open spec fn abs_w(&self) -> (u32, u32, Seq<u8>) {
        (self.state.s1.0, self.state.s2.0, ring(self.window@, self.wofs.0 as int))
    }
}

pub proof fn bup_interfaces(p: &RollSum, i: &RollSumIncr, s: Seq<u8>)
    requires p.incr_start(i),
    ensures
        cuts(&i.mach(), i.abs(), s, 0) == cuts(&p.mach(), p.mach().init(), s, 0), // @C04
        forall|a: (u32, u32, Seq<u8>)| #[trigger] p.mach().restart(a) == p.mach().init(), // @C06
{
}

//@@ impl RollSum.ToChunkIncr
    open spec fn incr_ok(&self) -> bool { self.window_len >= 1 }
    open spec fn incr_start(&self, r: &RollSumIncr) -> bool {
        r.mach() == *self && r.abs() == self.init() && r.inv() && r.cnt() == 0
    }
//@@ fn RollSum.ToChunkIncr.to_chunk_incr @C21 ~C04,C10
//@@ body RollSum.ToChunkIncr.to_chunk_incr
    assert(ring(zeros(self.window_len as int), 0) =~= zeros(self.window_len as int));
//@@ derive RollSumIncr.Clone
    ensures r.state == self.state, r.wofs == self.wofs,
//@@ fn RollSum.with_window @C21
    ensures r.window_len == $1,
//@@ impl RollSum.Chunk
    type M = RollSum;
    open spec fn mach(&self) -> RollSum { *self }
    open spec fn ok(&self) -> bool { self.window_len >= 1 }
    open spec fn soff(st: &RollSumSearchState) -> int { st.offset as int }
    open spec fn sinv(&self, st: &RollSumSearchState) -> bool { true }
    open spec fn scnt(st: &RollSumSearchState) -> int { 0 }
    open spec fn sabs(&self, st: &RollSumSearchState, kept: Seq<u8>) -> (u32, u32, Seq<u8>) { (st.state.s1.0, st.state.s2.0, zwin(self.window_len as int, kept)) }
    open spec fn window(&self) -> int { self.window_len as int }
//@@ fn RollSum.Chunk.to_search_state @C21 ~C02,C04,C06,C10
//@@ body RollSum.Chunk.to_search_state
    proof { lemma_zwin_empty(self.window_len as int, Seq::empty(), 0); }
//@@ fn RollSum.Chunk.find_chunk_edge @C10 ~C01,C02,C04,C06,C07,C09
//@@ loop RollSum.Chunk.find_chunk_edge 0
    invariant
        old($1).offset <= $i,
        $1.offset == old($1).offset,
        run(self, ($1.state.s1.0, $1.state.s2.0, zwin(self.window_len as int, $2@.take($i as int))), $2@, $i as int)
            == run(self, self.sabs(old($1), $2@.take(old($1).offset as int)), $2@, old($1).offset as int),
//@@ loopbody RollSum.Chunk.find_chunk_edge 0
    proof { lemma_zwin_step(self.window_len as int, $2@, $i - 1); lemma_zwin_empty(self.window_len as int, $2@, $i as int); }
//@@ loopafter RollSum.Chunk.find_chunk_edge 0
    proof { lemma_zwin_keep(self.window_len as int, $2@); }
//@@ fn RollSumState.From<&RollSum>.from @C10 ~C21,C04
    ensures r.s1.0 == bup_init($1.window_len).0, r.s2.0 == bup_init($1.window_len).1,
//@@ fn RollSumState.reset @C06 ~C02,C04,C10
    ensures final(self).s1.0 == bup_init($1.window_len).0, final(self).s2.0 == bup_init($1.window_len).1,
//@@ fn RollSumSearchState.From<&RollSum>.from @C21 ~C02,C04,C10
    ensures r.state.s1.0 == bup_init($1.window_len).0, r.state.s2.0 == bup_init($1.window_len).1, r.offset == 0,
//@@ fn RollSumSearchState.reset @C06 ~C02,C04,C10
    ensures final(self).state.s1.0 == bup_init($1.window_len).0, final(self).state.s2.0 == bup_init($1.window_len).1, final(self).offset == 0,
//@@ fn RollSum.Default.default @C21,C10
    ensures r.window_len == 64,
//@@ body RollSum.Default.default
    assert((1usize << 6usize) == 64) by (bit_vector);
//@@ fn RollSumIncr.From<&RollSum>.from @C21 ~C04,C10
    ensures r.state.s1.0 == bup_init($1.window_len).0, r.state.s2.0 == bup_init($1.window_len).1,
        r.wofs.0 == 0, r.window@ == zeros($1.window_len as int),
//@@ fn RollSumIncr.Default.default @C21,C10
    ensures r.state.s1.0 == bup_init(64).0, r.state.s2.0 == bup_init(64).1, r.wofs.0 == 0, r.window@ == zeros(64),
//@@ fn RollSumState.add @C10 ~C01,C02,C04,C07
    ensures (final(self).s1.0, final(self).s2.0) == bup_sums($1, old(self).s1.0, old(self).s2.0, $2, $3),
//@@ fn RollSumState.digest @C10
    ensures r == bup_digest(self.s1.0, self.s2.0),
//@@ body RollSumState.digest
    proof { lemma_bup_digest(self.s1.0, self.s2.0); }
//@@ fn RollSumState.at_split @C10 ~C02,C04
    ensures r == bup_split(self.s2.0),
//@@ body RollSumState.at_split
    proof { lemma_bup_digest(self.s1.0, self.s2.0); }
//@@ fn RollSumIncr.digest @C10
    ensures r == bup_digest(self.state.s1.0, self.state.s2.0),
//@@ fn RollSumIncr.add @C10 ~C01,C03,C04,C07
    ensures
        (final(self).state.s1.0, final(self).state.s2.0) == bup_sums(old(self).window@.len() as usize, old(self).state.s1.0, old(self).state.s2.0, $1, $2),
        final(self).wofs == old(self).wofs, final(self).window@ == old(self).window@,
//@@ fn RollSumIncr.reset @C06 ~C03,C04,C10
    requires old(self).wofs.0 < old(self).window@.len(),
    ensures
        final(self).window@.len() == old(self).window@.len(),
        final(self).abs_w() == bup_init(old(self).window@.len() as usize),
        final(self).wofs.0 < final(self).window@.len(),
//@@ body RollSumIncr.reset
    proof {
        let z = zeros(self.window@.len() as int);
        assert forall|x: Seq<u8>, i: int| x.len() == z.len() && (forall|j: int| 0 <= j < x.len() ==> x[j] == 0) && 0 <= i < x.len() implies #[trigger] ring(x, i) == z by {
            assert(ring(x, i) =~= z);
        }
    }
//@@ fn RollSumIncr.roll_byte @C10 ~C01,C03,C04,C07
    requires old(self).wofs.0 < old(self).window@.len(),
    ensures
        final(self).wofs.0 < final(self).window@.len(),
        final(self).window@.len() == old(self).window@.len(),
        final(self).abs_w() == bup_step(old(self).window@.len() as usize, old(self).abs_w(), $1),
//@@ body RollSumIncr.roll_byte
    proof {
        lemma_ring_step(self.window@, self.wofs.0 as int, $1);
        lemma_wrap_index(self.wofs.0 as int, self.window@.len() as int);
    }
//@@ fn RollSumIncr.at_split @C10 ~C03,C04
    ensures r == bup_split(self.state.s2.0),
//@@ impl RollSumIncr.ChunkIncr
    type M = RollSum;
    open spec fn mach(&self) -> RollSum { RollSum { window_len: self.window@.len() as usize } }
    open spec fn abs(&self) -> (u32, u32, Seq<u8>) { self.abs_w() }
    open spec fn inv(&self) -> bool { self.wofs.0 < self.window@.len() }
    open spec fn cnt(&self) -> int { 0 }
    open spec fn report(&self, data: Seq<u8>, n: int) -> int { n }
    open spec fn progress(&self) -> bool { true }
//@@ fn RollSumIncr.ChunkIncr.push @C10 ~C01,C03,C04,C05,C06,C07
//@@ loop RollSumIncr.ChunkIncr.push 0
    invariant
        self.window@.len() == old(self).window@.len(),
        self.wofs.0 < self.window@.len(),
        run(&old(self).mach(), self.abs_w(), $1@, $i as int) == run(&old(self).mach(), old(self).abs_w(), $1@, 0),
