//@@ module
/// (previous byte of the chunk or 0xff, length of the current run of increases)
impl Machine for Mii {
    type A = (u8, int);
    open spec fn init(&self) -> (u8, int) { (0xff, 0) }
    closed spec fn step(&self, a: (u8, int), b: u8) -> (u8, int) { (b, if b > a.0 { a.1 + 1 } else { 0 }) }
    closed spec fn hit(&self, a: (u8, int), b: u8) -> bool { b > a.0 && a.1 + 1 == self.w }
    open spec fn restart(&self, a: (u8, int)) -> (u8, int) { (0xff, 0) }
}

/// `n` bytes into the chunk, the last `k` bytes each are greater than the one before them.
pub open spec fn mii_run(s: Seq<u8>, n: int, k: int) -> bool {
    0 <= k < n && forall|j: int| n - k <= j < n ==> s[j] > #[trigger] s[j - 1]
}

pub open spec fn mii_inc(s: Seq<u8>, n: int) -> int
    decreases n
{
    if n <= 1 || n > s.len() { 0 } else if s[n - 1] > s[n - 2] { mii_inc(s, n - 1) + 1 } else { 0 }
}

pub proof fn lemma_mii_inc(s: Seq<u8>, n: int)
    requires 1 <= n <= s.len(),
    ensures
        mii_run(s, n, mii_inc(s, n)), // @C15
        mii_inc(s, n) + 1 < n ==> s[n - 1 - mii_inc(s, n)] <= s[n - 2 - mii_inc(s, n)], // @C15
    decreases n
{
    if n > 1 && s[n - 1] > s[n - 2] {
        lemma_mii_inc(s, n - 1);
    }
}

pub proof fn lemma_mii_state(p: &Mii, s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(),
    ensures
        state_at(p, p.init(), s, 0, n) == (if n == 0 { 0xffu8 } else { s[n - 1] }, mii_inc(s, n)), // @C15
    decreases n
{
    if n > 0 {
        lemma_mii_state(p, s, n - 1);
        lemma_state_step(p, p.init(), s, 0, n - 1);
    }
}

/// C15: the first cut is after the first byte that completes w increases in a row.
pub proof fn mii_cut(p: &Mii, s: Seq<u8>)
    requires p.w >= 1,
    ensures
        match run(p, p.init(), s, 0).0 {
            Some(n) => p.w < n <= s.len() // @C08
                && mii_run(s, n, p.w as int) && forall|k: int| 0 < k < n ==> !#[trigger] mii_run(s, k, p.w as int), // @C15
            None => forall|k: int| 0 < k <= s.len() ==> !#[trigger] mii_run(s, k, p.w as int), // @C15
        },
{
    lemma_run_state(p, p.init(), s, 0);
    let w = p.w as int;
    assert forall|k: int| 0 < k <= s.len() && mii_inc(s, k) < w implies !#[trigger] mii_run(s, k, w) by {
        lemma_mii_inc(s, k);
        let c = mii_inc(s, k);
        if mii_run(s, k, w) {
            let j = k - 1 - c;
            assert(s[j] > s[j - 1]);
        }
    }
    match run(p, p.init(), s, 0).0 {
        Some(n) => {
            lemma_mii_below(p, s, n - 1);
            lemma_mii_inc(s, n);
            lemma_mii_state(p, s, n - 1);
            lemma_mii_state(p, s, n);
            lemma_state_step(p, p.init(), s, 0, n - 1);
            assert(mii_inc(s, n) == w);
            assert forall|k: int| 0 < k < n implies !#[trigger] mii_run(s, k, w) by { assert(mii_inc(s, k) < w); }
        }
        None => {
            lemma_mii_below(p, s, s.len() as int);
            assert forall|k: int| 0 < k <= s.len() implies !#[trigger] mii_run(s, k, w) by { assert(mii_inc(s, k) < w); }
        }
    }
}

pub proof fn lemma_mii_below(p: &Mii, s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), p.w >= 1,
        forall|j: int| 0 <= j < n ==> !#[trigger] p.hit(state_at(p, p.init(), s, 0, j), s[j]),
    ensures forall|k: int| 0 < k <= n ==> #[trigger] mii_inc(s, k) < p.w, // @C15
    decreases n
{
    if n > 0 {
        lemma_mii_below(p, s, n - 1);
        lemma_mii_state(p, s, n - 1);
        lemma_mii_state(p, s, n);
        lemma_state_step(p, p.init(), s, 0, n - 1);
        assert(!p.hit(state_at(p, p.init(), s, 0, n - 1), s[n - 1]));
        if n > 1 { assert(mii_inc(s, n - 1) < p.w); }
    }
}

pub proof fn mii_interfaces(p: &Mii, i: &MiiIncr, s: Seq<u8>)
    requires p.incr_start(i),
    ensures
        cuts(&i.mach(), i.abs(), s, 0) == cuts(&p.mach(), p.mach().init(), s, 0), // @C04
        forall|a: (u8, int)| #[trigger] p.mach().restart(a) == p.mach().init(), // @C06
{
}

//@@ fn Mii.with_w @C21
    ensures r.w == $1,
//@@ fn Mii.Default.default @C21,C15
    ensures r.w == 5,
//@@ impl Mii.Chunk
    type M = Mii;
    open spec fn mach(&self) -> Mii { *self }
    open spec fn ok(&self) -> bool { self.w >= 1 }
    open spec fn soff(st: &MiiSearchState) -> int { 0 }
    open spec fn sinv(&self, st: &MiiSearchState) -> bool { st.incr.w == self.w && st.incr.inv() }
    open spec fn scnt(st: &MiiSearchState) -> int { st.incr.cnt() }
    open spec fn sabs(&self, st: &MiiSearchState, kept: Seq<u8>) -> (u8, int) { (st.incr.prev, st.incr.increment as int) }
    open spec fn window(&self) -> int { 0 }
//@@ fn Mii.Chunk.to_search_state @C21 ~C02,C04,C06,C15
//@@ fn Mii.Chunk.find_chunk_edge @C15 ~C01,C02,C04,C06,C09
//@@ body Mii.Chunk.find_chunk_edge
    proof { lemma_run_state(self, ($1.incr.prev, $1.incr.increment as int), $2@, 0); }
//@@ fn MiiIncr.From<&Mii>.from @C21 ~C04,C15
    ensures r.w == $1.w, r.prev == 0xff, r.increment == 0,
//@@ impl Mii.ToChunkIncr
    open spec fn incr_ok(&self) -> bool { self.w >= 1 }
    open spec fn incr_start(&self, r: &MiiIncr) -> bool {
        r.mach() == *self && r.abs() == self.init() && r.inv() && r.cnt() == 0
    }
//@@ fn Mii.ToChunkIncr.to_chunk_incr @C21 ~C04,C15
//@@ fn MiiSearchState.reset @C06 ~C02,C04,C15
    ensures final(self).incr.w == old(self).incr.w, final(self).incr.prev == 0xff, final(self).incr.increment == 0,
//@@ fn MiiSearchState.From<MiiIncr>.from @C21 ~C04,C15
    ensures r.incr == $1,
//@@ fn MiiSearchState.push @C15 ~C01,C02,C04
    requires old(self).incr.inv(), old(self).incr.cnt() + $1@.len() <= max_stream(),
    ensures
        final(self).incr.w == old(self).incr.w,
        final(self).incr.inv(),
        opt_int(r) == run(&old(self).incr.mach(), old(self).incr.abs(), $1@, 0).0,
        final(self).incr.abs() == run(&old(self).incr.mach(), old(self).incr.abs(), $1@, 0).1,
        0 <= final(self).incr.cnt() <= old(self).incr.cnt() + $1@.len(),
        r is Some ==> final(self).incr.cnt() == 0,
        r matches Some(n) ==> 1 <= n <= $1@.len(),
//@@ fn MiiIncr.From<Mii>.from @C21 ~C04,C15
    ensures r.w == $1.w, r.prev == 0xff, r.increment == 0,
//@@ impl MiiIncr.ChunkIncr
    type M = Mii;
    open spec fn mach(&self) -> Mii { Mii { w: self.w } }
    open spec fn abs(&self) -> (u8, int) { (self.prev, self.increment as int) }
    open spec fn inv(&self) -> bool { self.increment < self.w }
    open spec fn cnt(&self) -> int { self.increment as int }
    open spec fn report(&self, data: Seq<u8>, n: int) -> int { n }
    open spec fn progress(&self) -> bool { true }
//@@ fn MiiIncr.ChunkIncr.push @C15 ~C01,C03,C04,C05,C06,C08
//@@ loop MiiIncr.ChunkIncr.push 0
    invariant
        self.w == old(self).w,
        self.increment < self.w,
        self.increment <= old(self).increment + $i,
        run(&Mii { w: self.w }, (self.prev, self.increment as int), $1@, $i as int) == run(&Mii { w: self.w }, (old(self).prev, old(self).increment as int), $1@, 0),
//@@ fn MiiIncr.reset @C06 ~C03,C04,C15
    ensures final(self).w == old(self).w, final(self).prev == 0xff, final(self).increment == 0,
