//@@ uses
//@@ module
broadcast use super::group_bits;

/// (bytes since the cut, fingerprint)
impl<'a> Machine for FastCdc<'a> {
    type A = (int, u64);
    open spec fn init(&self) -> (int, u64) { (0, 0) }
    closed spec fn step(&self, a: (int, u64), b: u8) -> (int, u64) { (a.0 + 1, fc_fp(*self, a, b)) }
    closed spec fn hit(&self, a: (int, u64), b: u8) -> bool { fc_match(*self, a, b) || a.0 + 1 >= self.max_size }
    open spec fn restart(&self, a: (int, u64)) -> (int, u64) { (0, 0) }
}

/// fp = (fp << 1) + gear[byte], modulo 2^64; bytes before the minimum are skipped
pub open spec fn fc_fp(p: FastCdc<'_>, a: (int, u64), b: u8) -> u64 {
    if a.0 < p.min_size { a.1 } else { (((a.1 << 1usize) + p.gear@[b as int]) % 0x1_0000_0000_0000_0000) as u64 }
}

/// the gear hash matches after byte b
pub open spec fn fc_match(p: FastCdc<'_>, a: (int, u64), b: u8) -> bool {
    a.0 >= p.min_size && fc_fp(p, a, b) & (if a.0 < p.normal_size { 0x0003590703530000u64 } else { 0x0000d90003530000u64 }) == 0
}

pub open spec fn fc_ok(p: FastCdc<'_>) -> bool {
    p.min_size < p.max_size && p.normal_size <= p.max_size && p.max_size <= max_stream()
}

/// what the incremental interface reports: the index of the byte of a match, or the end at the maximum
pub open spec fn fc_rep(p: FastCdc<'_>, a: (int, u64), s: Seq<u8>, i: int) -> Option<int>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { None }
    else if fc_match(p, a, s[i]) { Some(i) }
    else if a.0 + 1 >= p.max_size { Some(i + 1) }
    else { fc_rep(p, (a.0 + 1, fc_fp(p, a, s[i])), s, i + 1) }
}

/// skipping up to the minimum
pub proof fn lemma_fc_skip(p: FastCdc<'_>, a: (int, u64), s: Seq<u8>, i: int, k: int)
    requires 0 <= i <= k <= s.len(), a.0 + (k - i) <= p.min_size, p.min_size < p.max_size,
    ensures
        run(&p, a, s, i) == run(&p, (a.0 + (k - i), a.1), s, k),
        fc_rep(p, a, s, i) == fc_rep(p, (a.0 + (k - i), a.1), s, k),
    decreases k - i
{
    if i < k { lemma_fc_skip(p, (a.0 + 1, a.1), s, i + 1, k); }
}

/// The report is the end of the chunk, less one for a match.
pub proof fn lemma_fc_rep(p: FastCdc<'_>, a: (int, u64), s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures
        match (run(&p, a, s, i).0, fc_rep(p, a, s, i)) { // @C12
            (None, None) => true,
            (Some(n), Some(k)) => n == k || n == k + 1,
            _ => false,
        },
        fc_rep(p, a, s, i) matches Some(k) ==> i <= k <= s.len(),
        run(&p, a, s, i).0 is Some ==> run(&p, a, s, i).1 == (0int, 0u64),
        a.0 < p.min_size < p.max_size ==> (fc_rep(p, a, s, i) matches Some(k) ==> i < k),
    decreases s.len() - i
{
    if i < s.len() && !p.hit(a, s[i]) { lemma_fc_rep(p, p.step(a, s[i]), s, i + 1); }
}

/// C08: no chunk ends before the minimum, and none is longer than the maximum.
pub proof fn lemma_fc_count(p: FastCdc<'_>, a: (int, u64), s: Seq<u8>, i: int, n: int)
    requires 0 <= i <= n <= s.len(),
    ensures state_at(&p, a, s, i, n).0 == a.0 + (n - i), // @C08
    decreases n - i
{
    if i < n { lemma_fc_count(p, p.step(a, s[i]), s, i + 1, n); }
}

pub proof fn fc_sizes(p: FastCdc<'_>, s: Seq<u8>)
    requires fc_ok(p),
    ensures
        match run(&p, p.init(), s, 0).0 {
            Some(n) => p.min_size < n <= p.max_size, // @C08
            None => s.len() < p.max_size, // @C08
        },
{
    lemma_run_state(&p, p.init(), s, 0);
    match run(&p, p.init(), s, 0).0 {
        Some(n) => {
            lemma_fc_count(p, p.init(), s, 0, n - 1);
            if n >= 2 {
                lemma_fc_count(p, p.init(), s, 0, n - 2);
                assert(!p.hit(state_at(&p, p.init(), s, 0, n - 2), s[n - 2]));
            }
        }
        None => {
            if s.len() > 0 {
                lemma_fc_count(p, p.init(), s, 0, s.len() - 1);
                assert(!p.hit(state_at(&p, p.init(), s, 0, s.len() - 1), s[s.len() - 1]));
            }
        }
    }
}

/// Both interfaces run the same machine from its initial state (they differ in what they report
/// of a match), and a new chunk starts like the first.
pub proof fn fc_interfaces(p: &FastCdc<'_>, i: &FastCdcIncr<'_>, s: Seq<u8>)
    requires p.incr_start(i),
    ensures
        cuts(&i.mach(), i.abs(), s, 0) == cuts(&p.mach(), p.mach().init(), s, 0), // @C04
        forall|a: (int, u64)| #[trigger] p.mach().restart(a) == p.mach().init(), // @C06
{
}

// ---- C03 for the positions the incremental interface reports
pub open spec fn fc_cuts(p: FastCdc<'_>, a: (int, u64), s: Seq<u8>, i: int) -> Seq<int>
    decreases s.len() - i, (if a.0 < p.min_size { 0int } else { 1int })
{
    match fc_rep(p, a, s, i) {
        None => Seq::empty(),
        Some(k) => if i < k <= s.len() || (k == i && a.0 >= p.min_size && p.min_size > 0) { seq![k] + fc_cuts(p, (0, 0), s, k) } else { Seq::empty() },
    }
}

pub proof fn lemma_fc_rep_skip(p: FastCdc<'_>, a: (int, u64), s: Seq<u8>, t: Seq<u8>, i: int, d: int)
    requires 0 <= i <= s.len(), t.len() == s.len() + d, 0 <= i + d, forall|j: int| i <= j < s.len() ==> s[j] == t[j + d],
    ensures fc_rep(p, a, t, i + d) == shift(fc_rep(p, a, s, i), d),
    decreases s.len() - i
{
    if i < s.len() {
        assert(s[i] == t[i + d]);
        lemma_fc_rep_skip(p, (a.0 + 1, fc_fp(p, a, s[i])), s, t, i + 1, d);
    }
}

pub proof fn lemma_fc_rep_concat(p: FastCdc<'_>, a: (int, u64), s: Seq<u8>, t: Seq<u8>, i: int)
    requires 0 <= i <= s.len() <= t.len(), forall|j: int| i <= j < s.len() ==> s[j] == t[j],
    ensures
        match fc_rep(p, a, s, i) {
            Some(k) => fc_rep(p, a, t, i) == Some(k),
            None => fc_rep(p, a, t, i) == fc_rep(p, run(&p, a, s, i).1, t, s.len() as int),
        },
    decreases s.len() - i
{
    if i < s.len() {
        assert(s[i] == t[i]);
        lemma_fc_rep_concat(p, (a.0 + 1, fc_fp(p, a, s[i])), s, t, i + 1);
    }
}

/// C03, from the contracts alone: however a stream is divided, the reported positions are the same
/// (minimum size at least 1).
pub fn drive_fastcdc<'a>(mut c: FastCdcIncr<'a>, data: &[u8], plan: &Vec<usize>) -> (r: Vec<usize>)
    requires c.inv(), c.params.min_size >= 1, 0 <= c.cnt(), c.cnt() + data@.len() <= max_stream(),
    ensures
        r@.map_values(|x: usize| x as int) == fc_cuts(c.params, c.abs(), data@, 0), // @C03
{
    let mut out: Vec<usize> = Vec::new();
    let mut lo: usize = 0;
    let mut p: usize = 0;
    let ghost m = c.params;
    let ghost total = fc_cuts(m, c.abs(), data@, 0);
    let mut more = true;
    proof { assert(total =~= out@.map_values(|x: usize| x as int) + total); }
    while more
        invariant
            lo <= data@.len(), // @C03
            c.inv(), // @C03
            c.params == m, // @C03
            m.min_size >= 1, // @C03
            0 <= c.cnt() && c.cnt() + (data@.len() - lo) <= max_stream(), // @C03
            more ==> out@.map_values(|x: usize| x as int) + fc_cuts(m, c.abs(), data@, lo as int) == total, // @C03
            !more ==> out@.map_values(|x: usize| x as int) == total, // @C03
        decreases (if more { 1int } else { 0int }), data@.len() - lo, plan@.len() - p, (if c.progress() { 0int } else { 1int }) // @C03
    {
        let mut hi = data.len();
        let mut last = true;
        if p < plan.len() {
            let step = plan[p];
            p = p + 1;
            last = false;
            if step < data.len() - lo { hi = lo + step; }
        }
        let ghost a0 = c.abs();
        let ghost out0 = out@.map_values(|x: usize| x as int);
        let buf = vstd::slice::slice_subrange(data, lo, hi);
        let cut = c.push(buf);
        proof {
            let pre = data@.take(hi as int);
            lemma_fc_rep_skip(m, a0, buf@, pre, 0, lo as int);
            lemma_run_skip(&m, a0, buf@, pre, 0, lo as int);
            lemma_fc_rep_concat(m, a0, pre, data@, lo as int);
            lemma_fc_rep(m, a0, buf@, 0);
            lemma_fc_rep(m, a0, data@, lo as int);
        }
        match cut {
            Some(n) => {
                out.push(lo + n);
                proof {
                    assert(out@.map_values(|x: usize| x as int) =~= out0.push(lo + n));
                    assert(out0.push(lo + n) + fc_cuts(m, c.abs(), data@, lo + n) =~= out0 + (seq![lo + n] + fc_cuts(m, c.abs(), data@, lo + n)));
                }
                lo = lo + n;
            }
            None => {
                proof { lemma_fc_cuts_resume(m, a0, c.abs(), data@, lo as int, hi as int); }
                lo = hi;
                if last {
                    more = false;
                    proof {
                        assert(fc_cuts(m, c.abs(), data@, lo as int) =~= Seq::empty());
                        assert(out0 + Seq::<int>::empty() =~= out0);
                    }
                }
            }
        }
    }
    out
}

pub proof fn lemma_fc_cuts_resume(p: FastCdc<'_>, a: (int, u64), b: (int, u64), s: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), fc_rep(p, a, s, i) == fc_rep(p, b, s, j), p.min_size >= 1, p.min_size < p.max_size,
    ensures fc_cuts(p, a, s, i) == fc_cuts(p, b, s, j),
{
    lemma_fc_rep(p, a, s, i);
    lemma_fc_rep(p, b, s, j);
}

pub open spec fn fc_defaults(p: FastCdc<'_>) -> bool {
    p.min_size == 2048 && p.normal_size == 8192 && p.max_size == 65536 && p.gear@ == gold_gear64()
}

//@@ fn FastCdc.Default.default @C21,C12
    ensures fc_defaults(r),
//@@ fn FastCdc.new @C21,C12
    ensures r.gear@ == $1@, r.min_size == $2, r.normal_size == $3, r.max_size == $4,
//@@ derive FastCdcState.Default
    ensures r.l == 0, r.fp.0 == 0
//@@ derive FastCdcIncr.Default
    ensures fc_defaults(r.params), r.abs() == r.params.init() // @C21,C12
//@@ impl FastCdc.Chunk
    type M = FastCdc<'a>;
    open spec fn mach(&self) -> FastCdc<'a> { *self }
    open spec fn ok(&self) -> bool { fc_ok(*self) }
    open spec fn soff(st: &FastCdcState) -> int { 0 }
    open spec fn sinv(&self, st: &FastCdcState) -> bool { st.l < self.max_size }
    open spec fn scnt(st: &FastCdcState) -> int { st.l as int }
    open spec fn sabs(&self, st: &FastCdcState, kept: Seq<u8>) -> (int, u64) { st.a() }
    open spec fn window(&self) -> int { 0 }
//@@ module
impl FastCdcState {
    pub open spec fn a(&self) -> (int, u64) { (self.l as int, self.fp.0) }
}
//@@ fn FastCdc.Chunk.to_search_state @C21 ~C02,C04,C06,C12
//@@ fn FastCdc.Chunk.find_chunk_edge @C12 ~C01,C02,C04,C06,C08,C09
//@@ fn FastCdc.ToChunkIncr.to_chunk_incr @C21 ~C04,C12
//@@ impl FastCdc.ToChunkIncr
    open spec fn incr_ok(&self) -> bool { fc_ok(*self) }
    open spec fn incr_start(&self, r: &FastCdcIncr<'a>) -> bool {
        r.mach() == *self && r.abs() == self.init() && r.inv() && r.cnt() == 0 && (self.min_size >= 1 ==> r.progress())
    }
//@@ fn FastCdcIncr.From<&FastCdc>.from @C21 ~C04,C12
    ensures r.params == *$1, r.state.a() == $1.init(),
//@@ fn FastCdcState.reset @C06 ~C02,C03,C04,C12
    ensures final(self).l == 0, final(self).fp.0 == 0,
//@@ fn FastCdcState.push @C12 ~C01,C02,C03,C04,C06,C08
    requires fc_ok(*$1), old(self).l < $1.max_size, old(self).l + $2@.len() <= max_stream(),
    ensures
        match r {
            None => run($1, old(self).a(), $2@, 0).0 is None && fc_rep(*$1, old(self).a(), $2@, 0) is None,
            Some((i, end)) => run($1, old(self).a(), $2@, 0).0 == Some(end as int) && fc_rep(*$1, old(self).a(), $2@, 0) == Some(i as int),
        },
        final(self).a() == run($1, old(self).a(), $2@, 0).1,
        r matches Some((i, end)) ==> i <= end <= $2@.len(),
        r matches Some((i, end)) ==> old(self).l < $1.min_size ==> i >= 1,
        r is Some ==> final(self).l == 0,
        r is None ==> final(self).l == old(self).l + $2@.len() && final(self).l < $1.max_size,
//@@ body FastCdcState.push
    proof {
        assert forall|x: u64| #[trigger] (x << 1usize) == (2 * x) % 0x1_0000_0000_0000_0000 by { super::lemma_double_u64(x); }
        let l0 = old(self).l as int;
        let k = if l0 >= $1.min_size { 0 } else if l0 + $2@.len() <= $1.min_size { $2@.len() as int } else { $1.min_size - l0 };
        if l0 + k <= $1.min_size { lemma_fc_skip(*$1, old(self).a(), $2@, 0, k); }
    }
//@@ loop FastCdcState.push 0
    invariant
        self.a() == old(self).a(),
        i <= $2@.len(), gi == old(self).l + i, $1.min_size <= gi,
        gi <= $1.max_size,
        gi < $1.max_size ==> run($1, (gi as int, fp.0), $2@, i as int) == run($1, old(self).a(), $2@, 0),
        gi < $1.max_size ==> fc_rep(*$1, (gi as int, fp.0), $2@, i as int) == fc_rep(*$1, old(self).a(), $2@, 0),
        gi >= $1.max_size ==> run($1, old(self).a(), $2@, 0) == (Some(i as int), (0int, 0u64)),
        gi >= $1.max_size ==> fc_rep(*$1, old(self).a(), $2@, 0) == Some(i as int),
    ensures i >= $2@.len() || gi >= $1.normal_size,
    decreases $2@.len() - i
//@@ loop FastCdcState.push 1
    invariant
        self.a() == old(self).a(),
        i <= $2@.len(), gi == old(self).l + i, $1.min_size <= gi, gi <= $1.max_size,
        i >= $2@.len() || gi >= $1.normal_size,
        gi < $1.max_size ==> run($1, (gi as int, fp.0), $2@, i as int) == run($1, old(self).a(), $2@, 0),
        gi < $1.max_size ==> fc_rep(*$1, (gi as int, fp.0), $2@, i as int) == fc_rep(*$1, old(self).a(), $2@, 0),
        gi >= $1.max_size ==> run($1, old(self).a(), $2@, 0) == (Some(i as int), (0int, 0u64)),
        gi >= $1.max_size ==> fc_rep(*$1, old(self).a(), $2@, 0) == Some(i as int),
    ensures i >= $2@.len(), gi < $1.max_size,
    decreases $2@.len() - i
//@@ impl FastCdcIncr.ChunkIncr
    type M = FastCdc<'a>;
    open spec fn mach(&self) -> FastCdc<'a> { self.params }
    open spec fn abs(&self) -> (int, u64) { self.state.a() }
    open spec fn inv(&self) -> bool { fc_ok(self.params) && self.state.l < self.params.max_size }
    open spec fn cnt(&self) -> int { self.state.l as int }
    open spec fn report(&self, data: Seq<u8>, n: int) -> int { fc_rep(self.params, self.abs(), data, 0)->0 }
    open spec fn progress(&self) -> bool { self.state.l < self.params.min_size }
//@@ fn FastCdcIncr.ChunkIncr.push @C12 ~C01,C03,C04,C05,C06,C08
//@@ attr FastCdcState.push
#[verifier::allow_complex_invariants]
