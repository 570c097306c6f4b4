//@@ uses
use vstd::std_specs::cmp::*;
use vstd::std_specs::range::*;
//@@ module
/// Asking a range for its bounds gives the ones vstd knows it by (they do not change between two
/// questions). A condition on a caller's own range type; `std_ranges_are_steady` proves it for std's.
pub open spec fn steady<T, R: std::ops::RangeBounds<T>>(r: &R) -> bool {
    &&& forall|b: Bound<&T>| #[trigger] call_ensures(R::start_bound, (r,), b) ==> b == r.spec_start_bound()
    &&& forall|b: Bound<&T>| #[trigger] call_ensures(R::end_bound, (r,), b) ==> b == r.spec_end_bound()
}

pub proof fn std_ranges_are_steady<T>(a: T, b: T, p: (Bound<T>, Bound<T>), i: std::ops::RangeInclusive<T>)
    ensures
        steady(&(a..b)), // @C20
        steady(&(a..)), // @C20
        steady(&(..b)), // @C20
        steady(&i), // @C20
        steady(&(..=b)), // @C20
        steady::<T, std::ops::RangeFull>(&(..)), // @C20
        steady(&p), // @C20
{
}

/// `partial_cmp` of T is the mathematical one vstd knows (else nothing can be said).
pub open spec fn ordered<T: PartialOrd<T>>() -> bool { <T as PartialOrdSpec<T>>::obeys_partial_cmp_spec() }
pub open spec fn cmp_is<T: PartialOrd<T>>(a: T, b: T, o: core::cmp::Ordering) -> bool {
    PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(o)
}
/// x violates the upper bound b
pub open spec fn over<T: PartialOrd<T>>(b: Bound<&T>, x: T) -> bool {
    match b {
        Bound::Included(m) => cmp_is(x, *m, core::cmp::Ordering::Greater),
        Bound::Excluded(m) => cmp_is(x, *m, core::cmp::Ordering::Greater) || cmp_is(x, *m, core::cmp::Ordering::Equal),
        Bound::Unbounded => false,
    }
}
/// x violates the lower bound b
pub open spec fn under<T: PartialOrd<T>>(b: Bound<&T>, x: T) -> bool {
    match b {
        Bound::Included(m) => cmp_is(x, *m, core::cmp::Ordering::Less),
        Bound::Excluded(m) => cmp_is(x, *m, core::cmp::Ordering::Less) || cmp_is(x, *m, core::cmp::Ordering::Equal),
        Bound::Unbounded => false,
    }
}
/// same kind, and the value is a clone
pub open spec fn bound_same<T: Clone>(b: Bound<&T>, r: Bound<T>) -> bool {
    match (b, r) {
        (Bound::Unbounded, Bound::Unbounded) => true,
        (Bound::Included(x), Bound::Included(y)) => cloned(*x, y),
        (Bound::Excluded(x), Bound::Excluded(y)) => cloned(*x, y),
        _ => false,
    }
}

/// C20, spelled out for u64.
pub fn check_u64<R: std::ops::RangeBounds<u64>>(r: R, x: u64)
    requires steady::<u64, R>(&r),
{
    let a = r.under_min(&x);
    let b = r.exceeds_max(&x);
    let c = RangeExt::contains(&r, &x);
    assert(a == match r.spec_start_bound() { Bound::Included(m) => x < *m, Bound::Excluded(m) => x <= *m, Bound::Unbounded => false }); // @C20
    assert(b == match r.spec_end_bound() { Bound::Included(m) => x > *m, Bound::Excluded(m) => x >= *m, Bound::Unbounded => false }); // @C20
    assert(c == (!a && !b)); // @C20
    let ghost lo = r.spec_start_bound();
    let ghost hi = r.spec_end_bound();
    let t: (Bound<u64>, Bound<u64>) = r.into_tuple();
    assert(t.0 == match lo { Bound::Included(m) => Bound::Included(*m), Bound::Excluded(m) => Bound::Excluded(*m), Bound::Unbounded => Bound::<u64>::Unbounded }); // @C20
    assert(t.1 == match hi { Bound::Included(m) => Bound::Included(*m), Bound::Excluded(m) => Bound::Excluded(*m), Bound::Unbounded => Bound::<u64>::Unbounded }); // @C20
}

/// The std range kinds have the bounds they are written with.
pub fn check_kinds(a: u64, b: u64, x: u64, t: (Bound<u64>, Bound<u64>))
{
    let r = RangeExt::contains(&(a..b), &x);
    assert(r == (a <= x && x < b)); // @C20
    let r = RangeExt::contains(&(a..), &x);
    assert(r == (a <= x)); // @C20
    let r = RangeExt::contains(&(..b), &x);
    assert(r == (x < b)); // @C20
    let r = RangeExt::contains(&(a..=b), &x);
    assert(r == (a <= x && x <= b)); // @C20
    let r = RangeExt::contains(&(..=b), &x);
    assert(r == (x <= b)); // @C20
    let r = RangeExt::contains(&(..), &x);
    assert(r); // @C20
    let r = RangeExt::contains(&t, &x);
    assert(r == (match t.0 { Bound::Included(m) => m <= x, Bound::Excluded(m) => m < x, Bound::Unbounded => true }
        && match t.1 { Bound::Included(m) => x <= m, Bound::Excluded(m) => x < m, Bound::Unbounded => true })); // @C20
}

//@@ trait RangeExt
    spec fn rx_lo(&self) -> Bound<&T>;
    spec fn rx_hi(&self) -> Bound<&T>;
    spec fn rx_ok(&self) -> bool;
//@@ fn RangeExt.exceeds_max @C20 ~C18
    ensures self.rx_ok() && ordered::<T>() ==> r == over(self.rx_hi(), *$1),
//@@ fn RangeExt.under_min @C20 ~C18
    ensures self.rx_ok() && ordered::<T>() ==> r == under(self.rx_lo(), *$1),
//@@ fn RangeExt.contains @C20
    ensures self.rx_ok() && ordered::<T>() ==> r == (!under(self.rx_lo(), *$1) && !over(self.rx_hi(), *$1)),
//@@ fn RangeExt.into_tuple @C20 ~C18,C21
    ensures self.rx_ok() ==> bound_same(self.rx_lo(), r.0) && bound_same(self.rx_hi(), r.1),
//@@ impl R.RangeExt<T>
    open spec fn rx_lo(&self) -> Bound<&T> { self.spec_start_bound() }
    open spec fn rx_hi(&self) -> Bound<&T> { self.spec_end_bound() }
    open spec fn rx_ok(&self) -> bool { steady::<T, R>(self) }
//@@ fn R.RangeExt<T>.exceeds_max @C20 ~C18
//@@ fn R.RangeExt<T>.under_min @C20 ~C18
//@@ fn R.RangeExt<T>.contains @C20
//@@ fn R.RangeExt<T>.into_tuple @C20 ~C18,C21
//@@ fn bound_cloned @C20
    ensures bound_same($1, r),
