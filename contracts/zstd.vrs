//@@ uses
//@@ module
broadcast use super::group_bits;

/// (hash, the last (up to) 32 bytes of the input)
impl Machine for Zstd {
    type A = (u64, Seq<u8>);
    open spec fn init(&self) -> (u64, Seq<u8>) { (0, Seq::empty()) }
    closed spec fn step(&self, a: (u64, Seq<u8>), b: u8) -> (u64, Seq<u8>) { (zstep(self.prime_power, a, b), wpush(a.1, 32, b)) }
    closed spec fn hit(&self, a: (u64, Seq<u8>), b: u8) -> bool {
        a.1.len() >= 32 && zstep(self.prime_power, a, b) & self.hit_mask == self.hit_mask
    }
    /// zstd carries hash and window over cuts
    open spec fn restart(&self, a: (u64, Seq<u8>)) -> (u64, Seq<u8>) { a }
}

pub open spec fn zprime() -> u64 { 0xCF1BBCDCB7A56463 }
pub open spec fn zm() -> int { 0x1_0000_0000_0000_0000 }

/// hash * prime + (byte + 10)
#[verifier::opaque]
pub open spec fn zadd(h: u64, b: u8) -> u64 {
    ((((h * zprime()) % zm()) + ((b + 10) % zm())) % zm()) as u64
}
#[verifier::opaque]
pub open spec fn zrot(pp: u64, h: u64, d: u8, b: u8) -> u64 {
    zadd(((h - (((((d + 10) % zm()) * pp) % zm()))) % zm()) as u64, b)
}
pub open spec fn zstep(pp: u64, a: (u64, Seq<u8>), b: u8) -> u64 {
    if a.1.len() < 32 { zadd(a.0, b) } else { zrot(pp, a.0, a.1[0], b) }
}
pub open spec fn zappend(h: u64, s: Seq<u8>) -> u64
    decreases s.len()
{
    if s.len() == 0 { h } else { zadd(zappend(h, s.drop_last()), s.last()) }
}

pub proof fn lemma_zappend_push(h: u64, s: Seq<u8>, n: int)
    requires 0 <= n < s.len(),
    ensures zappend(h, s.take(n + 1)) == zadd(zappend(h, s.take(n)), s[n]), zappend(h, s.take(0)) == h,
{
    assert(s.take(n + 1).drop_last() =~= s.take(n));
}

pub proof fn lemma_zappend_concat(h: u64, s: Seq<u8>, t: Seq<u8>)
    ensures zappend(h, s + t) == zappend(zappend(h, s), t),
    decreases t.len()
{
    if t.len() == 0 {
        assert(s + t =~= s);
    } else {
        lemma_zappend_concat(h, s, t.drop_last());
        assert((s + t).drop_last() =~= s + t.drop_last());
    }
}

/// While the window is not full bytes are only collected.
pub proof fn lemma_zseed(p: &Zstd, a: (u64, Seq<u8>), s: Seq<u8>, i: int, n: int)
    requires 0 <= i <= n <= s.len(), a.1.len() + (n - i) <= 32,
    ensures run(p, a, s, i) == run(p, (zappend(a.0, s.subrange(i, n)), a.1 + s.subrange(i, n)), s, n),
    decreases n - i
{
    let t = s.subrange(i, n);
    if i < n {
        let a1 = p.step(a, s[i]);
        assert(!p.hit(a, s[i]));
        lemma_zseed(p, a1, s, i + 1, n);
        let u = s.subrange(i + 1, n);
        assert(t =~= seq![s[i]] + u);
        lemma_zappend_concat(a.0, seq![s[i]], u);
        assert(seq![s[i]].drop_last() =~= Seq::<u8>::empty());
        assert(zappend(a.0, Seq::<u8>::empty()) == a.0);
        assert(zappend(a.0, seq![s[i]]) == zadd(a.0, s[i]));
        assert(a.1.push(s[i]) + u =~= a.1 + t);
    } else {
        assert(t =~= Seq::<u8>::empty());
        assert(a.1 + t =~= a.1);
    }
}

// ---- C07 / C19: the hash is the polynomial of the window
pub open spec fn zpow(e: int) -> int
    decreases e
{
    if e <= 0 { 1 } else { zpow(e - 1) * zprime() }
}

/// sum of (byte + 10) * prime^(distance from the end)
pub open spec fn zpoly(s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { (s[0] + 10) * zpow(s.len() - 1) + zpoly(s.drop_first()) }
}

pub proof fn lemma_zpoly_push(s: Seq<u8>, b: u8)
    ensures zpoly(s.push(b)) == zpoly(s) * zprime() + b + 10,
    decreases s.len()
{
    let q = s.push(b);
    if s.len() == 0 {
        assert(q.drop_first() =~= Seq::<u8>::empty());
        assert(zpoly(Seq::<u8>::empty()) == 0);
        assert(zpow(0) == 1);
        assert(zpoly(q) == (b + 10) * 1 + 0);
    } else {
        let t = s.drop_first();
        lemma_zpoly_push(t, b);
        assert(q.drop_first() =~= t.push(b));
        let n = s.len() as int;
        let c = s[0] + 10;
        let w = zpow(n - 1);
        let P = zprime() as int;
        let z = zpoly(t);
        assert(zpow(n) == w * P);
        assert(zpoly(q) == c * (w * P) + (z * P + b + 10));
        assert(zpoly(s) == c * w + z);
        assert(c * (w * P) + z * P == (c * w + z) * P) by (nonlinear_arith);
    }
}

pub proof fn lemma_zadd_int(x: int, P: int, c: int, m: int)
    requires m > 0,
    ensures ((((x % m) * P) % m) + (c % m)) % m == (x * P + c) % m,
{
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(x, P, m);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(x * P, c, m);
}

/// the two additions one after the other
pub proof fn lemma_zadd_forms(h: u64, b: u8)
    ensures
        zadd(h, b) == (((h * zprime()) % zm()) + ((b + 10) % zm())) % zm(),
        zadd(h, b) == ((((h * zprime()) % zm()) + b) % zm() + 10) % zm(),
{
    reveal(zadd);
    let x = (h * zprime()) % zm();
    assert(0 <= x < zm());
    assert((x + (b + 10) % zm()) % zm() == ((x + b) % zm() + 10) % zm());
}

pub proof fn lemma_zadd_mod(x: int, b: u8)
    ensures zadd((x % zm()) as u64, b) == (x * zprime() + b + 10) % zm(),
{
    let h = (x % zm()) as u64;
    assert(h == x % zm());
    let v = ((((h * zprime()) % zm()) + ((b + 10) % zm())) % zm());
    lemma_zadd_int(x, zprime() as int, b + 10, zm());
    assert(zadd(h, b) == v as u64) by { reveal(zadd); }
    assert(0 <= v < zm());
}

pub proof fn lemma_zsub_int(x: int, c: int, w: int, m: int)
    requires m > 0,
    ensures ((x % m) - ((((c % m) * (w % m))) % m)) % m == (x - c * w) % m,
{
    vstd::arithmetic::div_mod::lemma_mul_mod_noop(c, w, m);
    vstd::arithmetic::div_mod::lemma_sub_mod_noop(x, c * w, m);
}

pub open spec fn zpower_ok(p: &Zstd) -> bool { p.prime_power == zpow(31) % zm() }

pub proof fn lemma_zrot_mod(p: &Zstd, s: Seq<u8>, b: u8)
    requires zpower_ok(p), s.len() == 32,
    ensures zrot(p.prime_power, (zpoly(s) % zm()) as u64, s[0], b) == zpoly(s.drop_first().push(b)) % zm(),
{
    let t = s.drop_first();
    let c = s[0] + 10;
    let w = zpow(31);
    let x = zpoly(s);
    let h = (x % zm()) as u64;
    assert(h == x % zm());
    assert(x == c * w + zpoly(t));
    let v = (h - (((c % zm()) * p.prime_power) % zm())) % zm();
    lemma_zsub_int(x, c, w, zm());
    assert(v == zpoly(t) % zm());
    assert(zrot(p.prime_power, h, s[0], b) == zadd(v as u64, b)) by { reveal(zrot); }
    lemma_zadd_mod(zpoly(t), b);
    lemma_zpoly_push(t, b);
}

pub proof fn lemma_zpower()
    ensures wpow(zprime(), 31) == zpow(31) % zm(), wpow(zprime(), 31) == 0xf5507fe35f91f8cb,
{
    assert(wpow(0xCF1BBCDCB7A56463, 31) == 0xf5507fe35f91f8cb) by (compute_only);
    assert(zpow(31) % zm() == 0xf5507fe35f91f8cb) by (compute_only);
}

/// C07/C19: hash and window are functions of the last (up to) 32 bytes of the whole input,
/// wherever it was cut.
pub proof fn zstd_window(p: &Zstd, s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), zpower_ok(p),
    ensures
        state_at(p, p.init(), s, 0, n).1 == tail(s.take(n), 32), // @C07,C19
        state_at(p, p.init(), s, 0, n).0 == zpoly(tail(s.take(n), 32)) % zm(), // @C07,C19
    decreases n
{
    if n == 0 {
        assert(s.take(0) =~= Seq::empty());
    } else {
        zstd_window(p, s, n - 1);
        lemma_state_step(p, p.init(), s, 0, n - 1);
        lemma_tail_step(s, n - 1, 32);
        let win = tail(s.take(n - 1), 32);
        if win.len() >= 32 {
            lemma_zrot_mod(p, win, s[n - 1]);
        } else {
            lemma_zadd_mod(zpoly(win), s[n - 1]);
            lemma_zpoly_push(win, s[n - 1]);
        }
    }
}

pub open spec fn zstd_cuts_at(p: &Zstd, s: Seq<u8>, n: int) -> bool {
    n > 32 && (zpoly(tail(s.take(n), 32)) % zm()) as u64 & p.hit_mask == p.hit_mask
}

pub proof fn lemma_zstd_hit(p: &Zstd, s: Seq<u8>, n: int)
    requires 0 < n <= s.len(), zpower_ok(p),
    ensures p.hit(state_at(p, p.init(), s, 0, n - 1), s[n - 1]) == zstd_cuts_at(p, s, n), // @C19,C07
{
    zstd_window(p, s, n - 1);
    zstd_window(p, s, n);
    lemma_state_step(p, p.init(), s, 0, n - 1);
    lemma_tail_step(s, n - 1, 32);
}

/// C19: the cuts of a stream are exactly the positions where the polynomial hits the mask.
pub proof fn zstd_all_cuts(p: &Zstd, s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(), zpower_ok(p),
    ensures
        forall|k: int| 0 <= k < cuts(p, state_at(p, p.init(), s, 0, i), s, i).len() ==>
            i < #[trigger] cuts(p, state_at(p, p.init(), s, 0, i), s, i)[k] <= s.len() && zstd_cuts_at(p, s, cuts(p, state_at(p, p.init(), s, 0, i), s, i)[k]), // @C19
        forall|n: int| i < n <= s.len() && #[trigger] zstd_cuts_at(p, s, n) ==> cuts(p, state_at(p, p.init(), s, 0, i), s, i).contains(n), // @C19
    decreases s.len() - i
{
    let a = state_at(p, p.init(), s, 0, i);
    lemma_run_state(p, a, s, i);
    let r = run(p, a, s, i);
    let last = match r.0 { Some(n) => n - 1, None => s.len() as int };
    assert forall|n: int| i < n <= last implies !#[trigger] zstd_cuts_at(p, s, n) by {
        lemma_zstd_hit(p, s, n);
        lemma_state_compose(p, p.init(), s, 0, i, n - 1);
        assert(!p.hit(state_at(p, a, s, i, n - 1), s[n - 1]));
    }
    if let Some(n) = r.0 {
        lemma_zstd_hit(p, s, n);
        lemma_state_compose(p, p.init(), s, 0, i, n - 1);
        lemma_state_step(p, p.init(), s, 0, n - 1);
        assert(r.1 == state_at(p, p.init(), s, 0, n));
        zstd_all_cuts(p, s, n);
        let rest = cuts(p, r.1, s, n);
        let all = cuts(p, a, s, i);
        assert(all =~= seq![n] + rest);
        assert forall|k: int| 0 <= k < all.len() implies i < #[trigger] all[k] <= s.len() && zstd_cuts_at(p, s, all[k]) by {
            if k > 0 { assert(all[k] == rest[k - 1]); }
        }
        assert forall|m: int| i < m <= s.len() && #[trigger] zstd_cuts_at(p, s, m) implies all.contains(m) by {
            if m == n { assert(all[0] == n); }
            else {
                assert(rest.contains(m));
                let j = rest.index_of(m);
                assert(all[j + 1] == m);
            }
        }
    }
}

pub proof fn zstd_interfaces(p: &Zstd, i: &ZstdIncr, s: Seq<u8>)
    requires p.incr_start(i),
    ensures
        cuts(&i.mach(), i.abs(), s, 0) == cuts(&p.mach(), p.mach().init(), s, 0), // @C04
{
}

/// bits are set up to floor(log2(MiB)) + 20
pub open spec fn zstd_mask(mask: u64, size: u64) -> bool {
    exists|k: u32| k <= 31 && #[trigger] (1u64 << k) <= (size >> 20) && ((size >> 20) < (1u64 << ((k + 1) as u32))) && mask == (1u64 << ((k + 20) as u32)) - 1
}

pub proof fn lemma_mib(size: u64, mb: u32, z: u32)
    requires mb == size >> 20, mb != 0, z == vstd::std_specs::bits::u32_leading_zeros(mb),
    ensures
        z <= 31, z ^ 31 == 31 - z,
        (1u64 << ((z ^ 31) + 20) as u32) >= 1,
        zstd_mask(((1u64 << ((z ^ 31) + 20) as u32) - 1) as u64, size),
        !((!0u64) << ((z ^ 31) + 20) as u32) == (1u64 << ((z ^ 31) + 20) as u32) - 1,
        (!0u64) >> ((64 - ((z ^ 31) + 20)) as u32) == (1u64 << ((z ^ 31) + 20) as u32) - 1,
        u64::MAX == !0u64,
{
    assert(u64::MAX == !0u64) by (bit_vector);
    vstd::std_specs::bits::axiom_u32_leading_zeros(mb);
    assert(z <= 31);
    assert(z ^ 31 == sub(31, z)) by (bit_vector) requires z <= 31;
    let k = z ^ 31;
    let m = mb as u64;
    assert((1u32 << sub(31, z)) <= mb) by (bit_vector) requires z <= 31, (mb >> sub(31u32, z)) & 1 != 0;
    assert((1u64 << k) <= m) by (bit_vector) requires z <= 31, k == sub(31, z), (1u32 << sub(31, z)) <= mb, m == mb as u64;
    if z > 0 {
        assert(mb < (1u32 << sub(32, z))) by (bit_vector) requires 0 < z <= 31, (mb >> sub(32u32, z)) == 0;
    }
    assert(m < (1u64 << add(k, 1))) by (bit_vector) requires z <= 31, k == sub(31, z), z > 0 ==> mb < (1u32 << sub(32, z)), m == mb as u64;
    assert((1u64 << add(k, 20u32)) >= 1u64) by (bit_vector) requires k <= 31;
    assert(!((!0u64) << add(k, 20u32)) == sub(1u64 << add(k, 20u32), 1u64)) by (bit_vector) requires k <= 31;
    assert((!0u64) >> sub(64u32, add(k, 20u32)) == sub(1u64 << add(k, 20u32), 1u64)) by (bit_vector) requires k <= 31;
}

pub proof fn lemma_mask_8(x: u64)
    requires zstd_mask(x, 0x80_0000),
    ensures x == 0x7f_ffff,
{
    assert(0x80_0000u64 >> 20 == 8) by (bit_vector);
    let k = choose|k: u32| k <= 31 && #[trigger] (1u64 << k) <= 8 && (8 < (1u64 << ((k + 1) as u32))) && x == (1u64 << ((k + 20) as u32)) - 1;
    assert(k == 3) by (bit_vector) requires k <= 31, (1u64 << k) <= 8, 8 < (1u64 << add(k, 1u32));
    assert((1u64 << 23u32) == 0x80_0000) by (bit_vector);
}

/// Filling the window of an incremental chunker.
pub proof fn lemma_zfill(p: &Zstd, w0: Seq<u8>, o0: int, data: Seq<u8>, w1: Seq<u8>, n: int)
    requires
        w0.len() == 32, w1.len() == 32, 0 <= o0 <= o0 + n <= 32, n <= data.len(),
        forall|j: int| 0 <= j < 32 ==> w1[j] == if o0 <= j < o0 + n { data[j - o0] } else { w0[j] },
    ensures
        run(p, (zappend(0, w0.take(o0)), w0.take(o0)), data, 0) == run(p, (zappend(0, w1.take(o0 + n)), w1.take(o0 + n)), data, n),
        o0 + n == 32 ==> w1.take(o0 + n) == w1,
        ring(w1, 0) == w1,
{
    let t = data.subrange(0, n);
    lemma_zseed(p, (zappend(0, w0.take(o0)), w0.take(o0)), data, 0, n);
    lemma_zappend_concat(0, w0.take(o0), t);
    assert(w1.take(o0 + n) =~= w0.take(o0) + t);
    assert(ring(w1, 0) =~= w1);
    if o0 + n == 32 { assert(w1.take(o0 + n) =~= w1); }
}

impl ZstdIncr {
    pub open spec fn abs_z(&self) -> (u64, Seq<u8>) {
        if self.window_full { (self.state.hash.0, ring(self.window@, self.window_offs as int)) }
        else {
            let win = self.window@.take(self.window_offs as int);
            (zappend(0, win), win)
        }
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.window@.len() == 32
        &&& self.window_offs < 32
        &&& !self.window_full ==> self.state.hash.0 == 0
    }
}

//@@ fn Zstd.Default.default @C21,C19
    ensures r.hit_mask == 0x7f_ffff, r.prime_power == 0xf5507fe35f91f8cb, zpower_ok(&r),
//@@ body Zstd.Default.default
    proof {
        assert((8u64 << 20) == 0x80_0000 && (8u64 << 20u64) == 0x80_0000 && 0x80_0000u64 >> 20u64 == 8 && 0x80_0000u64 >> 20 == 8) by (bit_vector);
        assert forall|x: u64| #[trigger] zstd_mask(x, 0x80_0000) implies x == 0x7f_ffff by { lemma_mask_8(x); }
        lemma_zpower();
    }
//@@ fn Zstd.with_target_section_size @C21,C19
    requires $1 >> 20 != 0, $1 >> 20 <= 0xffff_ffff,
    ensures zstd_mask(r.hit_mask, $1), r.prime_power == 0xf5507fe35f91f8cb, zpower_ok(&r),
//@@ body Zstd.with_target_section_size
    proof {
        let mb = ($1 >> 20) as u32;
        lemma_mib($1, mb, vstd::std_specs::bits::u32_leading_zeros(mb));
        lemma_zpower();
    }
//@@ fn ZstdState.append @C19 ~C02,C03,C04,C07
    ensures final(self).hash.0 == zappend(old(self).hash.0, $1@),
//@@ loop ZstdState.append 0
    invariant self.hash.0 == zappend(old(self).hash.0, $1@.take($i as int)),
//@@ loopbody ZstdState.append 0
    proof {
        lemma_zappend_push(old(self).hash.0, $1@, $i - 1);
        lemma_zadd_forms(self.hash.0, $1@[$i - 1]);
    }
//@@ loopafter ZstdState.append 0
    assert($1@.take($1@.len() as int) =~= $1@);
//@@ fn ZstdState.rotate @C19 ~C02,C03,C04,C07
    ensures final(self).hash.0 == zrot($3, old(self).hash.0, $1, $2),
//@@ body ZstdState.rotate
    reveal(zadd); reveal(zrot);
//@@ fn ZstdState.at_split @C19 ~C02,C03,C04
    ensures r == (old(self).hash.0 & $1.hit_mask == $1.hit_mask), *final(self) == *old(self),
//@@ fn ZstdSearchState.append @C19 ~C02,C04,C07
    ensures final(self).offset == old(self).offset, final(self).state.hash.0 == zappend(old(self).state.hash.0, $1@),
//@@ fn ZstdSearchState.rotate @C19 ~C02,C04,C07
    ensures final(self).offset == old(self).offset, final(self).state.hash.0 == zrot($3, old(self).state.hash.0, $1, $2),
//@@ fn ZstdSearchState.at_split @C19 ~C02,C04
    ensures r == (old(self).state.hash.0 & $1.hit_mask == $1.hit_mask), *final(self) == *old(self),
//@@ impl Zstd.ToChunkIncr
    open spec fn incr_ok(&self) -> bool { true }
    open spec fn incr_start(&self, r: &ZstdIncr) -> bool {
        r.mach() == *self && r.abs() == self.init() && r.inv() && r.cnt() == 0
    }
//@@ fn Zstd.ToChunkIncr.to_chunk_incr @C21 ~C04,C19
//@@ body Zstd.ToChunkIncr.to_chunk_incr
    proof { assert forall|x: Seq<u8>| #[trigger] x.take(0) == Seq::<u8>::empty() by { assert(x.take(0) =~= Seq::<u8>::empty()); } }
//@@ fn ZstdIncr.From<Zstd>.from @C21 ~C04,C19
    ensures r.params == $1, r.wf(), !r.window_full, r.window_offs == 0,
//@@ fn ZstdIncr.From<&Zstd>.from @C21 ~C04,C19
    ensures r.params == *$1, r.wf(), !r.window_full, r.window_offs == 0,
//@@ impl Zstd.Chunk
    type M = Zstd;
    open spec fn mach(&self) -> Zstd { *self }
    open spec fn ok(&self) -> bool { true }
    open spec fn soff(st: &ZstdSearchState) -> int { st.offset as int }
    open spec fn sinv(&self, st: &ZstdSearchState) -> bool { st.offset <= 32 }
    open spec fn scnt(st: &ZstdSearchState) -> int { 0 }
    open spec fn sabs(&self, st: &ZstdSearchState, kept: Seq<u8>) -> (u64, Seq<u8>) { (st.state.hash.0, kept) }
    open spec fn window(&self) -> int { 32 }
//@@ fn Zstd.Chunk.to_search_state @C21 ~C02,C04,C19
//@@ fn Zstd.Chunk.find_chunk_edge @C19 ~C01,C02,C04,C07,C09
//@@ body Zstd.Chunk.find_chunk_edge
    proof {
        let o = $1.offset as int;
        let n = if $2@.len() < 32 { $2@.len() as int } else { 32 };
        if o < 32 {
            lemma_zseed(self, ($1.state.hash.0, $2@.take(o)), $2@, o, n);
            assert($2@.take(o) + $2@.subrange(o, n) =~= $2@.take(n));
        }
        assert($2@.subrange(0, $2@.len() as int) =~= $2@);
        assert($2@.take($2@.len() as int) =~= $2@);
        if $2@.len() >= 32 {
            assert(tail($2@.take(32), 32) =~= $2@.take(32));
        }
    }
//@@ loop Zstd.Chunk.find_chunk_edge 0
    invariant
        old($1).offset <= $i,
        $1.offset == 32,
        run(self, ($1.state.hash.0, tail($2@.take($i as int), 32)), $2@, $i as int)
            == run(self, self.sabs(old($1), $2@.take(old($1).offset as int)), $2@, old($1).offset as int),
//@@ loopbody Zstd.Chunk.find_chunk_edge 0
    proof {
        lemma_tail_step($2@, $i - 1, 32);
        assert(tail($2@.take($i as int), 32) =~= $2@.subrange($i - 32, $i as int));
    }
//@@ loopafter Zstd.Chunk.find_chunk_edge 0
    proof { assert(tail($2@, 32) =~= $2@.subrange($2@.len() - 32, $2@.len() as int)); }
//@@ impl ZstdIncr.ChunkIncr
    type M = Zstd;
    open spec fn mach(&self) -> Zstd { self.params }
    open spec fn abs(&self) -> (u64, Seq<u8>) { self.abs_z() }
    open spec fn inv(&self) -> bool { self.wf() }
    open spec fn cnt(&self) -> int { 0 }
    open spec fn report(&self, data: Seq<u8>, n: int) -> int { n }
    open spec fn progress(&self) -> bool { true }
//@@ fn ZstdIncr.ChunkIncr.push @C19 ~C01,C03,C04,C05,C07
//@@ body ZstdIncr.ChunkIncr.push
    let ghost w0 = self.window@;
    let ghost o0 = self.window_offs as int;
    let ghost use0: int = if self.window_full { 0 } else if 32 - o0 < $1@.len() { 32 - o0 } else { $1@.len() as int };
//@@ aftercopy ZstdIncr.ChunkIncr.push
    proof { lemma_zfill(&self.params, w0, o0, $1@, self.window@, use0); }
//@@ loop ZstdIncr.ChunkIncr.push 0
    invariant
        self.params == old(self).params,
        self.window_full,
        self.wf(),
        $o == use0,
        run(&self.params, self.abs_z(), $1@, $i as int) == run(&self.params, old(self).abs_z(), $1@, 0),
//@@ loopbody ZstdIncr.ChunkIncr.push 0
    proof {
        lemma_ring_step(self.window@, self.window_offs as int, $1@[$i - 1]);
        lemma_wrap_index(self.window_offs as int, 32);
    }
