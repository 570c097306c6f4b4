// Contracts of library functions /repo does not call today: each is part of the text handed to the
// verifier only when the extracted source calls it. Checked against std by Kani (assumed/std.rs).
//@@ when \.rotate_right\(
pub assume_specification [u32::rotate_right] (x: u32, n: u32) -> (r: u32)
    ensures r == rotl(x, (32 - (n % 32) as int) % 32);
//@@ when \.ilog2\(
pub assume_specification [u32::ilog2] (x: u32) -> (r: u32)
    requires x != 0,
    ensures r == 31 - vstd::std_specs::bits::u32_leading_zeros(x);
pub assume_specification [u64::ilog2] (x: u64) -> (r: u32)
    requires x != 0,
    ensures r == 63 - vstd::std_specs::bits::u64_leading_zeros(x);
//@@ when \.is_power_of_two\(
pub assume_specification [u32::is_power_of_two] (x: u32) -> (r: bool)
    ensures r == (x != 0 && x & ((x - 1) as u32) == 0);
pub assume_specification [u64::is_power_of_two] (x: u64) -> (r: bool)
    ensures r == (x != 0 && x & ((x - 1) as u64) == 0);
pub assume_specification [usize::is_power_of_two] (x: usize) -> (r: bool)
    ensures r == (x != 0 && x & ((x - 1) as usize) == 0);
//@@ when \.wrapping_neg\(
pub assume_specification [u32::wrapping_neg] (x: u32) -> (r: u32)
    ensures r == (0x1_0000_0000 - x) % 0x1_0000_0000;
pub assume_specification [u64::wrapping_neg] (x: u64) -> (r: u64)
    ensures r == (0x1_0000_0000_0000_0000 - x) % 0x1_0000_0000_0000_0000;
//@@ when \.abs_diff\(
pub assume_specification [u8::abs_diff] (x: u8, y: u8) -> (r: u8)
    ensures r == if x < y { y - x } else { x - y };
pub assume_specification [u32::abs_diff] (x: u32, y: u32) -> (r: u32)
    ensures r == if x < y { y - x } else { x - y };
pub assume_specification [u64::abs_diff] (x: u64, y: u64) -> (r: u64)
    ensures r == if x < y { y - x } else { x - y };
pub assume_specification [usize::abs_diff] (x: usize, y: usize) -> (r: usize)
    ensures r == if x < y { y - x } else { x - y };
//@@ when \.rem_euclid\(
pub assume_specification [u32::rem_euclid] (x: u32, y: u32) -> (r: u32)
    requires y != 0,
    ensures r == x % y;
pub assume_specification [u64::rem_euclid] (x: u64, y: u64) -> (r: u64)
    requires y != 0,
    ensures r == x % y;
pub assume_specification [usize::rem_euclid] (x: usize, y: usize) -> (r: usize)
    requires y != 0,
    ensures r == x % y;
//@@ when \.div_ceil\(
pub assume_specification [u64::div_ceil] (x: u64, y: u64) -> (r: u64)
    requires y != 0,
    ensures r == (x + y - 1) / (y as int);
pub assume_specification [usize::div_ceil] (x: usize, y: usize) -> (r: usize)
    requires y != 0,
    ensures r == (x + y - 1) / (y as int);
//@@ when \.to_vec\(
pub assume_specification<T: Clone> [<[T]>::to_vec] (x: &[T]) -> (r: std::vec::Vec<T>)
    ensures r@.len() == x@.len(), forall|i: int| 0 <= i < r@.len() ==> vstd::pervasive::cloned(x@[i], #[trigger] r@[i]);
//@@ when \.fill\(
pub assume_specification<T: Clone> [<[T]>::fill] (x: &mut [T], v: T)
    ensures final(x)@.len() == old(x)@.len(), forall|i: int| 0 <= i < final(x)@.len() ==> vstd::pervasive::cloned(v, #[trigger] final(x)@[i]);
//@@ when \.swap\(
pub assume_specification<T> [<[T]>::swap] (x: &mut [T], i: usize, j: usize)
    requires i < old(x)@.len(), j < old(x)@.len(),
    ensures final(x)@ == old(x)@.update(i as int, old(x)@[j as int]).update(j as int, old(x)@[i as int]);
//@@ when \.replace\(
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
//@@ when \.copied\(
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == match o { Some(v) => Some(*v), None => None };
//@@ when \.or\(
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == if o is Some { o } else { p };
//@@ when \.xor\(
pub assume_specification<T> [Option::<T>::xor] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == match (o, p) { (Some(v), None) => Some(v), (None, Some(v)) => Some(v), _ => None };
//@@ when \.then_some\(
pub assume_specification<T> [bool::then_some] (b: bool, v: T) -> (r: Option<T>)
    ensures r == if b { Some(v) } else { None };
//@@ when \]\s*\.into\(\)|Box::from\(
pub assume_specification<T, A: core::alloc::Allocator> [<std::boxed::Box<[T], A> as std::convert::From<std::vec::Vec<T, A>>>::from] (v: std::vec::Vec<T, A>) -> (r: std::boxed::Box<[T], A>)
    ensures r@ == v@;
