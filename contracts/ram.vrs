//@@ module
/// (bytes since the last cut, largest of them)
impl Machine for Ram {
    type A = (int, u8);
    open spec fn init(&self) -> (int, u8) { (0, 0) }
    closed spec fn step(&self, a: (int, u8), b: u8) -> (int, u8) { (a.0 + 1, if b >= a.1 { b } else { a.1 }) }
    closed spec fn hit(&self, a: (int, u8), b: u8) -> bool { b >= a.1 && a.0 > self.w }
    open spec fn restart(&self, a: (int, u8)) -> (int, u8) { (0, 0) }
}

/// The state really is the number of bytes and their maximum.
pub open spec fn ram_max(s: Seq<u8>) -> u8
    decreases s.len()
{
    if s.len() == 0 { 0 } else { let m = ram_max(s.drop_last()); if s.last() >= m { s.last() } else { m } }
}

pub proof fn lemma_ram_state(p: &Ram, s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(),
    ensures state_at(p, p.init(), s, 0, n) == (n, ram_max(s.take(n))), // @C17
    decreases n
{
    if n > 0 {
        lemma_ram_state(p, s, n - 1);
        lemma_state_step(p, p.init(), s, 0, n - 1);
        assert(s.take(n).drop_last() =~= s.take(n - 1));
    }
}

pub proof fn lemma_ram_max(s: Seq<u8>)
    ensures forall|k: int| 0 <= k < s.len() ==> s[k] <= ram_max(s), // @C17
        s.len() > 0 ==> exists|k: int| 0 <= k < s.len() && s[k] == ram_max(s), // @C17
    decreases s.len()
{
    if s.len() > 0 {
        lemma_ram_max(s.drop_last());
        let m = ram_max(s.drop_last());
        assert forall|k: int| 0 <= k < s.len() implies s[k] <= ram_max(s) by {
            if k < s.len() - 1 { assert(s.drop_last()[k] == s[k]); }
        }
        if s.last() >= m { assert(s[s.len() - 1] == ram_max(s)); }
        else {
            let k = choose|k: int| 0 <= k < s.drop_last().len() && s.drop_last()[k] == m;
            assert(s[k] == m);
        }
    }
}

/// C17: the first cut of a chunk is after the first byte at position > w that is no smaller than
/// every byte before it. C08: so it has more than w bytes.
pub proof fn ram_cut(p: &Ram, s: Seq<u8>)
    ensures
        match run(p, p.init(), s, 0).0 {
            Some(n) => p.w + 1 < n <= s.len() // @C08
                && ram_cuts_at(p, s, n) && forall|k: int| 0 < k < n ==> !#[trigger] ram_cuts_at(p, s, k), // @C17
            None => forall|k: int| 0 < k <= s.len() ==> !#[trigger] ram_cuts_at(p, s, k), // @C17
        },
{
    lemma_run_state(p, p.init(), s, 0);
    let last = match run(p, p.init(), s, 0).0 { Some(n) => n - 1, None => s.len() as int };
    assert forall|k: int| 0 < k <= last implies !#[trigger] ram_cuts_at(p, s, k) by {
        lemma_ram_hit(p, s, k);
        assert(!p.hit(state_at(p, p.init(), s, 0, k - 1), s[k - 1]));
    }
    if last < s.len() { lemma_ram_hit(p, s, last + 1); }
}

pub proof fn lemma_ram_hit(p: &Ram, s: Seq<u8>, k: int)
    requires 0 < k <= s.len(),
    ensures ram_cuts_at(p, s, k) == p.hit(state_at(p, p.init(), s, 0, k - 1), s[k - 1]), // @C17
{
    lemma_ram_state(p, s, k - 1);
    let t = s.take(k - 1);
    lemma_ram_max(t);
    if s[k - 1] >= ram_max(t) {
        assert forall|j: int| 0 <= j < k - 1 implies s[k - 1] >= #[trigger] s[j] by { assert(t[j] <= ram_max(t)); }
    } else if t.len() > 0 {
        let j = choose|j: int| 0 <= j < t.len() && t[j] == ram_max(t);
        assert(s[j] == t[j]);
    }
}

pub open spec fn ram_cuts_at(p: &Ram, s: Seq<u8>, n: int) -> bool {
    n - 1 > p.w && forall|j: int| 0 <= j < n - 1 ==> s[n - 1] >= #[trigger] s[j]
}

pub proof fn ram_interfaces(p: &Ram, i: &RamIncr, s: Seq<u8>)
    requires p.incr_start(i),
    ensures
        cuts(&i.mach(), i.abs(), s, 0) == cuts(&p.mach(), p.mach().init(), s, 0), // @C04
        forall|a: (int, u8)| #[trigger] p.mach().restart(a) == p.mach().init(), // @C06
{
}

//@@ fn Ram.with_w @C21
    ensures r.w == $1,
//@@ impl Ram.Chunk
    type M = Ram;
    open spec fn mach(&self) -> Ram { *self }
    open spec fn ok(&self) -> bool { true }
    open spec fn soff(st: &RamState) -> int { 0 }
    open spec fn sinv(&self, st: &RamState) -> bool { true }
    open spec fn scnt(st: &RamState) -> int { st.i as int }
    open spec fn sabs(&self, st: &RamState, kept: Seq<u8>) -> (int, u8) { (st.i as int, st.max_val) }
    open spec fn window(&self) -> int { 0 }
//@@ fn Ram.Chunk.to_search_state @C21 ~C02,C04,C06,C17
//@@ fn Ram.Chunk.find_chunk_edge @C17 ~C01,C02,C04,C06,C09
//@@ fn RamState.push @C17 ~C01,C02,C03,C04,C06,C08
    requires old(self).i + $2@.len() <= max_stream(),
    ensures
        opt_int(r) == run($1, (old(self).i as int, old(self).max_val), $2@, 0).0,
        (final(self).i as int, final(self).max_val) == run($1, (old(self).i as int, old(self).max_val), $2@, 0).1,
        r matches Some(n) ==> 1 <= n <= $2@.len(),
        r is Some ==> final(self).i == 0,
        r is None ==> final(self).i == old(self).i + $2@.len(),
//@@ loop RamState.push 0
    invariant
        self.i == old(self).i,
        run($1, (old(self).i + $i, self.max_val), $2@, $i as int) == run($1, (old(self).i as int, old(self).max_val), $2@, 0),
//@@ impl Ram.ToChunkIncr
    open spec fn incr_ok(&self) -> bool { true }
    open spec fn incr_start(&self, r: &RamIncr) -> bool {
        r.mach() == *self && r.abs() == self.init() && r.inv() && r.cnt() == 0
    }
//@@ fn Ram.ToChunkIncr.to_chunk_incr @C21 ~C04,C17
//@@ fn RamIncr.From<&Ram>.from @C21 ~C04,C17
    ensures r.params == *$1, r.state.i == 0, r.state.max_val == 0,
//@@ impl RamIncr.ChunkIncr
    type M = Ram;
    open spec fn mach(&self) -> Ram { self.params }
    open spec fn abs(&self) -> (int, u8) { (self.state.i as int, self.state.max_val) }
    open spec fn inv(&self) -> bool { true }
    open spec fn cnt(&self) -> int { self.state.i as int }
    open spec fn report(&self, data: Seq<u8>, n: int) -> int { n }
    open spec fn progress(&self) -> bool { true }
//@@ fn RamIncr.ChunkIncr.push @C17 ~C01,C03,C04,C05,C06
