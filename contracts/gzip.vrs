//@@ uses
//@@ module
/// (sum of the window, the last (up to) window bytes since the cut)
impl Machine for GzipRsyncable {
    type A = (u64, Seq<u8>);
    open spec fn init(&self) -> (u64, Seq<u8>) { (0, Seq::empty()) }
    closed spec fn step(&self, a: (u64, Seq<u8>), b: u8) -> (u64, Seq<u8>) { (gzip_acc(self.window_len as int, a, b), wpush(a.1, self.window_len as int, b)) }
    closed spec fn hit(&self, a: (u64, Seq<u8>), b: u8) -> bool { gzip_acc(self.window_len as int, a, b) % self.modulus == 0 }
    open spec fn restart(&self, a: (u64, Seq<u8>)) -> (u64, Seq<u8>) { (0, Seq::empty()) }
}

pub open spec fn gzip_acc(w: int, a: (u64, Seq<u8>), b: u8) -> u64 {
    let c = if a.1.len() >= w { ((a.0 - a.1[0]) % 0x1_0000_0000_0000_0000) as u64 } else { a.0 };
    ((c + b) % 0x1_0000_0000_0000_0000) as u64
}

pub open spec fn gzip_ok(p: GzipRsyncable) -> bool { p.window_len >= 1 && p.modulus >= 1 }

pub open spec fn bytes_sum(s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { bytes_sum(s.drop_last()) + s.last() }
}

pub proof fn lemma_sum_front(s: Seq<u8>)
    requires s.len() > 0,
    ensures bytes_sum(s) == s[0] + bytes_sum(s.drop_first()),
    decreases s.len()
{
    if s.len() > 1 {
        lemma_sum_front(s.drop_last());
        assert(s.drop_last().drop_first() =~= s.drop_first().drop_last());
    } else {
        assert(s.drop_last() =~= s.drop_first());
    }
}

pub proof fn lemma_sum_push(s: Seq<u8>, b: u8)
    ensures bytes_sum(s.push(b)) == bytes_sum(s) + b,
{
    assert(s.push(b).drop_last() =~= s);
}

pub proof fn lemma_sum_bound(s: Seq<u8>)
    ensures 0 <= bytes_sum(s) <= 255 * s.len(),
    decreases s.len()
{
    if s.len() > 0 { lemma_sum_bound(s.drop_last()); }
}

/// C07: the state is a function of the window alone: the window are the last bytes of the chunk,
/// the accumulator is their sum.
pub proof fn gzip_window(p: &GzipRsyncable, s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), gzip_ok(*p),
    ensures
        state_at(p, p.init(), s, 0, n).1 == tail(s.take(n), p.window_len as int), // @C07,C14
        state_at(p, p.init(), s, 0, n).0 == bytes_sum(tail(s.take(n), p.window_len as int)) % 0x1_0000_0000_0000_0000, // @C07,C14
    decreases n
{
    let w = p.window_len as int;
    if n == 0 {
        assert(s.take(0) =~= Seq::empty());
    } else {
        gzip_window(p, s, n - 1);
        lemma_state_step(p, p.init(), s, 0, n - 1);
        lemma_tail_step(s, n - 1, w);
        let win = tail(s.take(n - 1), w);
        if win.len() >= w {
            lemma_sum_front(win);
            lemma_sum_push(win.drop_first(), s[n - 1]);
        } else {
            lemma_sum_push(win, s[n - 1]);
        }
    }
}

/// C14: the first cut is after the first byte where the sum of the last window bytes is a multiple
/// of the modulus.
pub proof fn gzip_cut(p: &GzipRsyncable, s: Seq<u8>)
    requires gzip_ok(*p), 255 * p.window_len < 0x1_0000_0000_0000_0000,
    ensures
        match run(p, p.init(), s, 0).0 {
            Some(n) => 0 < n <= s.len() && gzip_cuts_at(p, s, n) && forall|k: int| 0 < k < n ==> !#[trigger] gzip_cuts_at(p, s, k), // @C14,C07
            None => forall|k: int| 0 < k <= s.len() ==> !#[trigger] gzip_cuts_at(p, s, k), // @C14,C07
        },
{
    lemma_run_state(p, p.init(), s, 0);
    let last = match run(p, p.init(), s, 0).0 { Some(n) => n - 1, None => s.len() as int };
    assert forall|k: int| 0 < k <= last implies !#[trigger] gzip_cuts_at(p, s, k) by {
        lemma_gzip_hit(p, s, k);
        assert(!p.hit(state_at(p, p.init(), s, 0, k - 1), s[k - 1]));
    }
    if last < s.len() { lemma_gzip_hit(p, s, last + 1); }
}

pub proof fn lemma_gzip_hit(p: &GzipRsyncable, s: Seq<u8>, k: int)
    requires 0 < k <= s.len(), gzip_ok(*p), 255 * p.window_len < 0x1_0000_0000_0000_0000,
    ensures gzip_cuts_at(p, s, k) == p.hit(state_at(p, p.init(), s, 0, k - 1), s[k - 1]), // @C14
{
    gzip_window(p, s, k - 1);
    gzip_window(p, s, k);
    lemma_state_step(p, p.init(), s, 0, k - 1);
    let t = tail(s.take(k), p.window_len as int);
    lemma_sum_bound(t);
    assert(0 <= bytes_sum(t) < 0x1_0000_0000_0000_0000);
}

pub open spec fn gzip_cuts_at(p: &GzipRsyncable, s: Seq<u8>, n: int) -> bool {
    bytes_sum(tail(s.take(n), p.window_len as int)) % (p.modulus as int) == 0
}

pub proof fn gzip_interfaces(p: &GzipRsyncable, i: &GzipRsyncableIncr, s: Seq<u8>)
    requires p.incr_start(i),
    ensures
        cuts(&i.mach(), i.abs(), s, 0) == cuts(&p.mach(), p.mach().init(), s, 0), // @C04
        forall|a: (u64, Seq<u8>)| #[trigger] p.mach().restart(a) == p.mach().init(), // @C06
{
}

//@@ fn GzipRsyncable.with_window_and_modulus @C21
    ensures r.window_len == $1, r.modulus == $2,
//@@ fn GzipRsyncable.Default.default @C21,C14
    ensures r.window_len == 8192, r.modulus == 4096,
//@@ impl GzipRsyncable.Chunk
    type M = GzipRsyncable;
    open spec fn mach(&self) -> GzipRsyncable { *self }
    open spec fn ok(&self) -> bool { gzip_ok(*self) }
    open spec fn soff(st: &GzipRsyncableSearchState) -> int { st.offset as int }
    open spec fn sinv(&self, st: &GzipRsyncableSearchState) -> bool { true }
    open spec fn scnt(st: &GzipRsyncableSearchState) -> int { 0 }
    open spec fn sabs(&self, st: &GzipRsyncableSearchState, kept: Seq<u8>) -> (u64, Seq<u8>) { (st.state.accum.0, tail(kept, self.window_len as int)) }
    open spec fn window(&self) -> int { self.window_len as int }
//@@ fn GzipRsyncable.Chunk.to_search_state @C21 ~C02,C04,C06,C14
//@@ fn GzipRsyncable.Chunk.find_chunk_edge @C14 ~C01,C02,C04,C06,C07,C09
//@@ loop GzipRsyncable.Chunk.find_chunk_edge 0
    invariant
        old($1).offset <= $i,
        $1.offset == old($1).offset,
        run(self, ($1.state.accum.0, tail($2@.take($i as int), self.window_len as int)), $2@, $i as int)
            == run(self, self.sabs(old($1), $2@.take(old($1).offset as int)), $2@, old($1).offset as int),
//@@ loopbody GzipRsyncable.Chunk.find_chunk_edge 0
    proof {
        lemma_tail_step($2@, $i - 1, self.window_len as int);
        assert(tail($2@.subrange($i as int, $i as int), self.window_len as int) =~= Seq::empty());
    }
//@@ loopafter GzipRsyncable.Chunk.find_chunk_edge 0
    proof { lemma_tail_keep($2@, if $2@.len() > self.window_len { $2@.len() - self.window_len } else { 0 }, self.window_len as int); }
//@@ fn GzipRsyncableIncr.From<&GzipRsyncable>.from @C21 ~C04,C14
    ensures r.params == *$1, r.accum.0 == 0, r.window@ == Seq::<u8>::empty(),
//@@ impl GzipRsyncable.ToChunkIncr
    open spec fn incr_ok(&self) -> bool { gzip_ok(*self) }
    open spec fn incr_start(&self, r: &GzipRsyncableIncr) -> bool {
        r.mach() == *self && r.abs() == self.init() && r.inv() && r.cnt() == 0
    }
//@@ fn GzipRsyncable.ToChunkIncr.to_chunk_incr @C21 ~C04,C14
//@@ fn GzipRsyncableState.reset @C06 ~C02,C04,C14
    ensures final(self).accum.0 == 0,
//@@ fn GzipRsyncableSearchState.reset @C06 ~C02,C04,C14
    ensures final(self).offset == 0, final(self).state.accum.0 == 0,
//@@ fn GzipRsyncableIncr.reset @C06 ~C03,C04,C14
    ensures final(self).params == old(self).params, final(self).accum.0 == 0, final(self).window@ == Seq::<u8>::empty(),
//@@ fn GzipRsyncableIncr.From<GzipRsyncable>.from @C21 ~C04,C14
    ensures r.params == $1, r.accum.0 == 0, r.window@ == Seq::<u8>::empty(),
//@@ fn GzipRsyncableState.add @C14 ~C01,C02,C04,C07
    requires gzip_ok(*$2), $3 < $1@.len(), $1@[$3 as int] == $4,
    ensures
        final(self).accum.0 == $2.step((old(self).accum.0, tail($1@.take($3 as int), $2.window_len as int)), $4).0,
        r == $2.hit((old(self).accum.0, tail($1@.take($3 as int), $2.window_len as int)), $4),
//@@ body GzipRsyncableState.add
    proof { lemma_tail_step($1@, $3 as int, $2.window_len as int); }
//@@ impl GzipRsyncableIncr.ChunkIncr
    type M = GzipRsyncable;
    open spec fn mach(&self) -> GzipRsyncable { self.params }
    open spec fn abs(&self) -> (u64, Seq<u8>) { (self.accum.0, self.window@) }
    open spec fn inv(&self) -> bool { gzip_ok(self.params) && self.window@.len() <= self.params.window_len }
    open spec fn cnt(&self) -> int { 0 }
    open spec fn report(&self, data: Seq<u8>, n: int) -> int { n }
    open spec fn progress(&self) -> bool { true }
//@@ fn GzipRsyncableIncr.ChunkIncr.push @C14 ~C01,C03,C04,C05,C06,C07
//@@ loop GzipRsyncableIncr.ChunkIncr.push 0
    invariant
        self.params == old(self).params,
        self.window@.len() <= self.params.window_len,
        run(&self.params, (self.accum.0, self.window@), $1@, $i as int) == run(&self.params, (old(self).accum.0, old(self).window@), $1@, 0),
//@@ loopbody GzipRsyncableIncr.ChunkIncr.push 0
    proof {
        // the byte may be put into the window before or after the oldest one leaves
        let w = self.window@;
        let b = $1@[$i - 1];
        if w.len() > 0 { assert(w.push(b).drop_first() =~= w.drop_first().push(b) && w.push(b)[0] == w[0]); }
    }
//@@ derive GzipRsyncableIncr.Clone
    ensures r.params == self.params, r.accum == self.accum, r.window@ == self.window@,
