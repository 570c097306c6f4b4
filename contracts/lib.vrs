//@@ module
/// Stand-in for `std::iter::Iterator` (the extraction resolves the name to this one): same
/// `next`, plus the ghost pieces a contract needs.
pub trait Iterator: Sized {
    type Item;
    spec fn it_inv(&self) -> bool;
    /// may be asked again after `None`
    spec fn fused() -> bool;
    spec fn it_next(&self, post: &Self, r: Option<Self::Item>) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).it_inv(),
        ensures
            r is Some || Self::fused() ==> final(self).it_inv(), // @C05,C01
            old(self).it_next(final(self), r); // @C05
}

/// How `push` answers on `rem`.
pub open spec fn push_at<C: ChunkIncr>(c: C, rem: Seq<u8>) -> Option<int> {
    match run(&c.mach(), c.abs(), rem, 0).0 { None => None, Some(n) => Some(c.report(rem, n)) }
}

pub open spec fn concat(s: Seq<&[u8]>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { concat(s.drop_last()) + s.last()@ }
}

/// C05, proved from the contracts alone: the slices an iterator yields concatenate to the data,
/// and iteration ends.
pub fn drive_iter_slices<'a, C: ChunkIncr>(c: C, data: &'a [u8]) -> (r: Vec<&'a [u8]>)
    requires c.inv(), c.progress(), 0 <= c.cnt(), c.cnt() + data@.len() <= max_stream(),
    ensures concat(r@) == data@, // @C05
{
    let mut it = c.iter_slices(data);
    let mut out: Vec<&'a [u8]> = Vec::new();
    loop
        invariant
            it.it_inv(), // @C05
            it.rem@.len() == 0 || it.chunker.progress(), // @C05
            concat(out@) + it.rem@ == data@, // @C05
        decreases it.rem@.len() // @C05
    {
        let ghost before = out@;
        let ghost rem0 = it.rem@;
        match it.next() {
            None => {
                assert(it.rem@.len() == 0);
                assert(concat(out@) =~= data@);
                return out;
            }
            Some(v) => {
                out.push(v);
                proof {
                    assert(out@.drop_last() =~= before);
                    assert(concat(out@) =~= concat(before) + v@);
                    assert(concat(out@) + it.rem@ =~= concat(before) + (v@ + it.rem@));
                }
            }
        }
    }
}

pub fn drive_iter_slices_strict<'a, C: ChunkIncr>(c: C, data: &'a [u8]) -> (r: (Vec<&'a [u8]>, C, &'a [u8]))
    requires c.inv(), c.progress(), 0 <= c.cnt(), c.cnt() + data@.len() <= max_stream(),
    ensures
        concat(r.0@) + r.2@ == data@, // @C05
        forall|k: int| 0 <= k < r.0@.len() ==> (#[trigger] r.0@[k])@.len() > 0, // @C05
{
    let mut it = c.iter_slices_strict(data);
    let mut out: Vec<&'a [u8]> = Vec::new();
    loop
        invariant
            it.it_inv(), // @C05
            it.chunker.progress(), // @C05
            concat(out@) + it.rem@ == data@, // @C05
            forall|k: int| 0 <= k < out@.len() ==> (#[trigger] out@[k])@.len() > 0, // @C05
        decreases it.rem@.len() // @C05
    {
        let ghost before = out@;
        match it.next() {
            None => {
                let (c2, rem) = it.into_parts();
                return (out, c2, rem);
            }
            Some(v) => {
                out.push(v);
                proof {
                    assert(out@.drop_last() =~= before);
                    assert(concat(out@) =~= concat(before) + v@);
                    assert(concat(out@) + it.rem@ =~= concat(before) + (v@ + it.rem@));
                }
            }
        }
    }
}
/// Position up to which a call examined `data`.
pub open spec fn examined(cut: Option<usize>, data: Seq<u8>) -> int {
    match cut { Some(n) => n as int, None => data.len() as int }
}

/// C02/C09, proved from the contracts alone: a caller that keeps exactly the bytes not discarded
/// and extends its buffer by any plan of lengths finds the cuts of the whole stream.
pub fn drive_fce<C: Chunk>(c: &C, data: &[u8], plan: &Vec<usize>) -> (r: Vec<usize>)
    requires c.ok(), data@.len() <= max_stream(),
    ensures
        r@.len() == cuts(&c.mach(), c.mach().init(), data@, 0).len(), // @C02
        forall|k: int| 0 <= k < r@.len() ==> r@[k] == cuts(&c.mach(), c.mach().init(), data@, 0)[k], // @C02
{
    let mut st = c.to_search_state();
    let mut out: Vec<usize> = Vec::new();
    let mut lo: usize = 0; // start of the buffer
    let mut hi: usize = 0; // end of the buffer
    let mut p: usize = 0;
    let m = Ghost(c.mach());
    let ghost total = cuts(&m@, m@.init(), data@, 0);
    let ghost mut a: <C::M as Machine>::A = m@.init(); // state at `ex`
    let ghost mut ex: int = 0; // examined up to here
    let mut more = true;
    proof { assert(data@.subrange(0, 0) =~= Seq::empty()); assert(total =~= Seq::<int>::empty() + total); }
    while more
        invariant
            lo <= hi <= data@.len(), // @C02
            c.sinv(&st), // @C02
            ex == lo + C::soff(&st), // @C02
            lo <= ex <= hi, // @C02,C09
            0 <= C::scnt(&st) <= ex, // @C02
            c.sabs(&st, data@.subrange(lo as int, ex)) == a, // @C02
            more ==> out@.map_values(|x: usize| x as int) + cuts(&m@, a, data@, ex) == total, // @C02
            !more ==> out@.map_values(|x: usize| x as int) == total, // @C02
        decreases (if more { 1int } else { 0int }), data@.len() - ex, data@.len() - hi, plan@.len() - p // @C02
    {
        let ghost ex0 = ex;
        let ghost a0 = a;
        let ghost out0 = out@.map_values(|x: usize| x as int);
        let buf = vstd::slice::slice_subrange(data, lo, hi);
        let (cut, discard) = c.find_chunk_edge(&mut st, buf);
        let ghost e = examined(cut, buf@);
        proof {
            let o = ex0 - lo;
            assert(buf@.take(o) =~= data@.subrange(lo as int, ex0));
            assert(buf@.subrange(discard as int, e) =~= data@.subrange(lo + discard, lo + e));
            // the run over the buffer is the run over the stream, as far as the buffer reaches
            let pre = data@.take(hi as int);
            lemma_run_skip(&m@, a0, buf@, pre, o, lo as int);
            lemma_run_concat(&m@, a0, pre, data@, ex0);
            lemma_run_range(&m@, a0, buf@, o);
            lemma_run_range(&m@, a0, data@, ex0);
            a = run(&m@, a0, pre, ex0).1;
            ex = lo + e;
        }
        match cut {
            Some(n) => {
                out.push(lo + n);
                proof {
                    assert(out@.map_values(|x: usize| x as int) =~= out0.push(lo + n));
                    assert(out0.push(lo + n) + cuts(&m@, a, data@, ex) =~= out0 + (seq![lo + n] + cuts(&m@, a, data@, ex)));
                }
            }
            None => {
                proof { lemma_cuts_resume(&m@, a0, a, data@, ex0, ex); }
                if hi == data.len() {
                    more = false;
                    proof {
                        assert(cuts(&m@, a, data@, ex) =~= Seq::empty());
                        assert(out0 + Seq::empty() =~= out0);
                        assert(out0 + Seq::<int>::empty() =~= out0);
                    }
                } else if p < plan.len() {
                    let step = plan[p];
                    p = p + 1;
                    if step < data.len() - hi { hi = hi + step; } else { hi = data.len(); }
                } else {
                    hi = data.len();
                }
            }
        }
        lo = lo + discard;
    }
    out
}

/// C03, proved from the contracts alone: pushing a stream in any pieces finds the cuts of the
/// whole stream (for chunkers that report the end of the chunk).
pub fn drive_incr<C: ChunkIncr>(mut c: C, data: &[u8], plan: &Vec<usize>) -> (r: Vec<usize>)
    requires c.inv(), 0 <= c.cnt(), c.cnt() + data@.len() <= max_stream(),
        forall|x: C, s: Seq<u8>, n: int| #[trigger] x.report(s, n) == n,
    ensures
        r@.len() == cuts(&c.mach(), c.abs(), data@, 0).len(), // @C03
        forall|k: int| 0 <= k < r@.len() ==> r@[k] == cuts(&c.mach(), c.abs(), data@, 0)[k], // @C03
{
    let mut out: Vec<usize> = Vec::new();
    let mut lo: usize = 0;
    let mut p: usize = 0;
    let m = Ghost(c.mach());
    let ghost total = cuts(&m@, c.abs(), data@, 0);
    let mut more = true;
    proof { assert(total =~= Seq::<int>::empty() + total); }
    while more
        invariant
            lo <= data@.len(), // @C03
            c.inv(), // @C03
            c.mach() == m@, // @C03
            0 <= c.cnt() && c.cnt() + (data@.len() - lo) <= max_stream(), // @C03
            more ==> out@.map_values(|x: usize| x as int) + cuts(&m@, c.abs(), data@, lo as int) == total, // @C03
            !more ==> out@.map_values(|x: usize| x as int) == total, // @C03
        decreases (if more { 1int } else { 0int }), data@.len() - lo, plan@.len() - p // @C03
    {
        let mut hi = data.len();
        let mut last = true;
        if p < plan.len() {
            let step = plan[p];
            p = p + 1;
            last = false;
            if step < data.len() - lo { hi = lo + step; }
        }
        let ghost a0 = c.abs();
        let ghost out0 = out@.map_values(|x: usize| x as int);
        let buf = vstd::slice::slice_subrange(data, lo, hi);
        let cut = c.push(buf);
        proof {
            let pre = data@.take(hi as int);
            lemma_run_skip(&m@, a0, buf@, pre, 0, lo as int);
            lemma_run_concat(&m@, a0, pre, data@, lo as int);
            lemma_run_range(&m@, a0, buf@, 0);
            lemma_run_range(&m@, a0, data@, lo as int);
        }
        match cut {
            Some(n) => {
                out.push(lo + n);
                proof {
                    assert(out@.map_values(|x: usize| x as int) =~= out0.push(lo + n));
                    assert(out0.push(lo + n) + cuts(&m@, c.abs(), data@, lo + n) =~= out0 + (seq![lo + n] + cuts(&m@, c.abs(), data@, lo + n)));
                }
                lo = lo + n;
            }
            None => {
                proof { lemma_cuts_resume(&m@, a0, c.abs(), data@, lo as int, hi as int); }
                lo = hi;
                if last {
                    more = false;
                    proof {
                        assert(cuts(&m@, c.abs(), data@, lo as int) =~= Seq::empty());
                        assert(out0 + Seq::<int>::empty() =~= out0);
                    }
                }
            }
        }
    }
    out
}

//@@ trait ChunkIncr
    /// ghost: the automaton this chunker runs, its state, invariant, and number of bytes fed since the last cut
    type M: Machine;
    spec fn mach(&self) -> Self::M;
    spec fn abs(&self) -> <Self::M as Machine>::A;
    spec fn inv(&self) -> bool;
    spec fn cnt(&self) -> int;
    /// where `push` reports the chunk that ends at `n` of `data`
    spec fn report(&self, data: Seq<u8>, n: int) -> int;
    /// the next reported cut, and all after it, are after at least one byte of the pushed data
    spec fn progress(&self) -> bool;
//@@ fn ChunkIncr.push
    requires
        old(self).inv(),
        old(self).cnt() + $1@.len() <= max_stream(),
    ensures
        final(self).inv(),
        final(self).mach() == old(self).mach(),
        r is Some && old(self).progress() ==> final(self).progress(), // @C05,C01
        0 <= final(self).cnt() <= old(self).cnt() + $1@.len(),
        r is Some ==> final(self).cnt() == 0,
        r matches Some(n) ==> n <= $1@.len(), // @C01
        r matches Some(n) ==> old(self).progress() ==> n >= 1, // @C01
        match run(&old(self).mach(), old(self).abs(), $1@, 0).0 {
            None => r is None,
            Some(n) => r is Some && r->0 == old(self).report($1@, n),
        },
        final(self).abs() == run(&old(self).mach(), old(self).abs(), $1@, 0).1,
//@@ fn ChunkIncr.iter_slices
    ensures r.rem@ == $1@, r.chunker == self, // @C05
//@@ fn ChunkIncr.iter_slices_strict
    ensures r.rem@ == $1@, r.chunker == self, // @C05
//@@ fn IterSlicesStrict.take_rem
    ensures
        r@ == old(self).rem@, // @C05
        final(self).rem@.len() == 0, // @C05
        final(self).chunker == old(self).chunker, // @C05
//@@ fn IterSlicesStrict.into_parts
    ensures r.0 == self.chunker, r.1@ == self.rem@, // @C05
//@@ fn IterSlices.into_parts
    ensures r.0 == self.chunker, r.1@ == self.rem@, // @C05
//@@ impl IterSlices.Iterator
    open spec fn fused() -> bool { true }
    open spec fn it_inv(&self) -> bool { self.chunker.inv() && 0 <= self.chunker.cnt() && self.chunker.cnt() + self.rem@.len() <= max_stream() }
    open spec fn it_next(&self, post: &Self, r: Option<&'a [u8]>) -> bool {
        &&& self.chunker.progress() ==> post.rem@.len() == 0 || post.chunker.progress()
        &&& match r {
            None => self.rem@.len() == 0 && post.rem@.len() == 0 && post.chunker == self.chunker,
            Some(v) => self.rem@.len() > 0 && v@ + post.rem@ =~= self.rem@
                && (self.chunker.progress() ==> v@.len() > 0)
                && match push_at(self.chunker, self.rem@) {
                    Some(n) => v@.len() == n,
                    None => post.rem@.len() == 0,
                },
        }
    }
//@@ fn IterSlices.Iterator.next
//@@ impl IterSlicesStrict.Iterator
    open spec fn fused() -> bool { false }
    open spec fn it_inv(&self) -> bool { self.chunker.inv() && 0 <= self.chunker.cnt() && self.chunker.cnt() + self.rem@.len() <= max_stream() }
    open spec fn it_next(&self, post: &Self, r: Option<&'a [u8]>) -> bool {
        &&& r is Some && self.chunker.progress() ==> post.chunker.progress()
        &&& match push_at(self.chunker, self.rem@) {
            Some(n) => r is Some && r->0@.len() == n && r->0@ + post.rem@ =~= self.rem@
                && (self.chunker.progress() ==> n > 0),
            None => r is None && post.rem@ == self.rem@,
        }
    }
//@@ fn IterSlicesStrict.Iterator.next
//@@ trait Chunk
    /// ghost: the automaton; how much of the next buffer was examined before (`soff`); state
    /// invariant; bytes since the last cut; the abstract state given the kept bytes; the window
    type M: Machine;
    spec fn mach(&self) -> Self::M;
    spec fn ok(&self) -> bool;
    spec fn soff(st: &Self::SearchState) -> int;
    spec fn sinv(&self, st: &Self::SearchState) -> bool;
    spec fn scnt(st: &Self::SearchState) -> int;
    spec fn sabs(&self, st: &Self::SearchState, kept: Seq<u8>) -> <Self::M as Machine>::A;
    spec fn window(&self) -> int;
//@@ fn Chunk.to_search_state
    requires self.ok(),
    ensures
        self.sinv(&r), // @C21
        Self::soff(&r) == 0, // @C21
        Self::scnt(&r) == 0, // @C21
        self.sabs(&r, Seq::empty()) == self.mach().init(), // @C21
//@@ fn Chunk.find_chunk_edge
    requires
        self.ok(),
        self.sinv(old($1)),
        0 <= Self::soff(old($1)) <= $2@.len(),
        0 <= Self::scnt(old($1)),
        Self::scnt(old($1)) + $2@.len() - Self::soff(old($1)) <= max_stream(),
    ensures
        r.0 matches Some(n) ==> n <= $2@.len(), // @C01
        r.1 <= examined(r.0, $2@), // @C01
        self.sinv(final($1)),
        r.1 + Self::soff(final($1)) == examined(r.0, $2@), // @C02,C09
        Self::soff(final($1)) <= self.window(), // @C09
        0 <= Self::scnt(final($1)) <= Self::scnt(old($1)) + (examined(r.0, $2@) - Self::soff(old($1))),
        opt_int(r.0) == run(&self.mach(), self.sabs(old($1), $2@.take(Self::soff(old($1)))), $2@, Self::soff(old($1))).0,
        self.sabs(final($1), $2@.subrange(r.1 as int, examined(r.0, $2@))) == run(&self.mach(), self.sabs(old($1), $2@.take(Self::soff(old($1)))), $2@, Self::soff(old($1))).1,
//@@ trait ToChunkIncr
    spec fn incr_ok(&self) -> bool;
    /// ghost: `r` is at the start of a stream, with the parameters of `self`
    spec fn incr_start(&self, r: &Self::Incr) -> bool;
//@@ fn ToChunkIncr.to_chunk_incr
    requires self.incr_ok(),
    ensures self.incr_start(&r), // @C21
