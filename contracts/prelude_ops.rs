verus! {
pub struct Wrapping<T>(pub T);
impl Copy for Wrapping<u32> {}
impl Clone for Wrapping<u32> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Default for Wrapping<u32> { fn default() -> (r: Self) ensures r == Wrapping(0u32) { Wrapping(0) } }
impl vstd::std_specs::ops::AddSpecImpl<Wrapping<u32>> for Wrapping<u32> {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: Self) -> bool { true }
  open spec fn add_spec(self, rhs: Self) -> Self { Wrapping(((self.0 + rhs.0) % 0x1_0000_0000) as u32) }
}
impl core::ops::Add for Wrapping<u32> { type Output = Self; fn add(self, rhs: Self) -> (r: Self) { Wrapping(self.0.wrapping_add(rhs.0)) } }
impl vstd::std_specs::ops::AddAssignSpecImpl<Wrapping<u32>> for Wrapping<u32> {
  open spec fn obeys_add_assign_spec() -> bool { true }
  open spec fn add_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn add_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(((self.0 + rhs.0) % 0x1_0000_0000) as u32) }
}
impl core::ops::AddAssign for Wrapping<u32> { fn add_assign(&mut self, rhs: Self) { *self = Wrapping(self.0.wrapping_add(rhs.0)); } }
impl vstd::std_specs::ops::SubSpecImpl<Wrapping<u32>> for Wrapping<u32> {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: Self) -> bool { true }
  open spec fn sub_spec(self, rhs: Self) -> Self { Wrapping(((self.0 - rhs.0) % 0x1_0000_0000) as u32) }
}
impl core::ops::Sub for Wrapping<u32> { type Output = Self; fn sub(self, rhs: Self) -> (r: Self) { Wrapping(self.0.wrapping_sub(rhs.0)) } }
impl vstd::std_specs::ops::SubAssignSpecImpl<Wrapping<u32>> for Wrapping<u32> {
  open spec fn obeys_sub_assign_spec() -> bool { true }
  open spec fn sub_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn sub_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(((self.0 - rhs.0) % 0x1_0000_0000) as u32) }
}
impl core::ops::SubAssign for Wrapping<u32> { fn sub_assign(&mut self, rhs: Self) { *self = Wrapping(self.0.wrapping_sub(rhs.0)); } }
impl vstd::std_specs::ops::MulSpecImpl<Wrapping<u32>> for Wrapping<u32> {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: Self) -> bool { true }
  open spec fn mul_spec(self, rhs: Self) -> Self { Wrapping(((self.0 * rhs.0) % 0x1_0000_0000) as u32) }
}
impl core::ops::Mul for Wrapping<u32> { type Output = Self; fn mul(self, rhs: Self) -> (r: Self) { Wrapping(self.0.wrapping_mul(rhs.0)) } }
impl vstd::std_specs::ops::MulAssignSpecImpl<Wrapping<u32>> for Wrapping<u32> {
  open spec fn obeys_mul_assign_spec() -> bool { true }
  open spec fn mul_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn mul_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(((self.0 * rhs.0) % 0x1_0000_0000) as u32) }
}
impl core::ops::MulAssign for Wrapping<u32> { fn mul_assign(&mut self, rhs: Self) { *self = Wrapping(self.0.wrapping_mul(rhs.0)); } }
impl vstd::std_specs::ops::DivSpecImpl<Wrapping<u32>> for Wrapping<u32> {
  open spec fn obeys_div_spec() -> bool { true }
  open spec fn div_req(self, rhs: Self) -> bool { rhs.0 != 0 }
  open spec fn div_spec(self, rhs: Self) -> Self { Wrapping(self.0 / rhs.0) }
}
impl core::ops::Div for Wrapping<u32> { type Output = Self; fn div(self, rhs: Self) -> (r: Self) { Wrapping(self.0 / rhs.0) } }
impl vstd::std_specs::ops::DivAssignSpecImpl<Wrapping<u32>> for Wrapping<u32> {
  open spec fn obeys_div_assign_spec() -> bool { true }
  open spec fn div_assign_req(&self, rhs: Self) -> bool { rhs.0 != 0 }
  open spec fn div_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(self.0 / rhs.0) }
}
impl core::ops::DivAssign for Wrapping<u32> { fn div_assign(&mut self, rhs: Self) { *self = Wrapping(self.0 / rhs.0); } }
impl vstd::std_specs::ops::RemSpecImpl<Wrapping<u32>> for Wrapping<u32> {
  open spec fn obeys_rem_spec() -> bool { true }
  open spec fn rem_req(self, rhs: Self) -> bool { rhs.0 != 0 }
  open spec fn rem_spec(self, rhs: Self) -> Self { Wrapping(self.0 % rhs.0) }
}
impl core::ops::Rem for Wrapping<u32> { type Output = Self; fn rem(self, rhs: Self) -> (r: Self) { Wrapping(self.0 % rhs.0) } }
impl vstd::std_specs::ops::RemAssignSpecImpl<Wrapping<u32>> for Wrapping<u32> {
  open spec fn obeys_rem_assign_spec() -> bool { true }
  open spec fn rem_assign_req(&self, rhs: Self) -> bool { rhs.0 != 0 }
  open spec fn rem_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(self.0 % rhs.0) }
}
impl core::ops::RemAssign for Wrapping<u32> { fn rem_assign(&mut self, rhs: Self) { *self = Wrapping(self.0 % rhs.0); } }
impl vstd::std_specs::ops::BitAndSpecImpl<Wrapping<u32>> for Wrapping<u32> {
  open spec fn obeys_bitand_spec() -> bool { true }
  open spec fn bitand_req(self, rhs: Self) -> bool { true }
  open spec fn bitand_spec(self, rhs: Self) -> Self { Wrapping(self.0 & rhs.0) }
}
impl core::ops::BitAnd for Wrapping<u32> { type Output = Self; fn bitand(self, rhs: Self) -> (r: Self) { Wrapping(self.0 & rhs.0) } }
impl vstd::std_specs::ops::BitAndAssignSpecImpl<Wrapping<u32>> for Wrapping<u32> {
  open spec fn obeys_bitand_assign_spec() -> bool { true }
  open spec fn bitand_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn bitand_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(self.0 & rhs.0) }
}
impl core::ops::BitAndAssign for Wrapping<u32> { fn bitand_assign(&mut self, rhs: Self) { *self = Wrapping(self.0 & rhs.0); } }
impl vstd::std_specs::ops::BitOrSpecImpl<Wrapping<u32>> for Wrapping<u32> {
  open spec fn obeys_bitor_spec() -> bool { true }
  open spec fn bitor_req(self, rhs: Self) -> bool { true }
  open spec fn bitor_spec(self, rhs: Self) -> Self { Wrapping(self.0 | rhs.0) }
}
impl core::ops::BitOr for Wrapping<u32> { type Output = Self; fn bitor(self, rhs: Self) -> (r: Self) { Wrapping(self.0 | rhs.0) } }
impl vstd::std_specs::ops::BitOrAssignSpecImpl<Wrapping<u32>> for Wrapping<u32> {
  open spec fn obeys_bitor_assign_spec() -> bool { true }
  open spec fn bitor_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn bitor_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(self.0 | rhs.0) }
}
impl core::ops::BitOrAssign for Wrapping<u32> { fn bitor_assign(&mut self, rhs: Self) { *self = Wrapping(self.0 | rhs.0); } }
impl vstd::std_specs::ops::BitXorSpecImpl<Wrapping<u32>> for Wrapping<u32> {
  open spec fn obeys_bitxor_spec() -> bool { true }
  open spec fn bitxor_req(self, rhs: Self) -> bool { true }
  open spec fn bitxor_spec(self, rhs: Self) -> Self { Wrapping(self.0 ^ rhs.0) }
}
impl core::ops::BitXor for Wrapping<u32> { type Output = Self; fn bitxor(self, rhs: Self) -> (r: Self) { Wrapping(self.0 ^ rhs.0) } }
impl vstd::std_specs::ops::BitXorAssignSpecImpl<Wrapping<u32>> for Wrapping<u32> {
  open spec fn obeys_bitxor_assign_spec() -> bool { true }
  open spec fn bitxor_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn bitxor_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(self.0 ^ rhs.0) }
}
impl core::ops::BitXorAssign for Wrapping<u32> { fn bitxor_assign(&mut self, rhs: Self) { *self = Wrapping(self.0 ^ rhs.0); } }
impl vstd::std_specs::ops::ShlSpecImpl<usize> for Wrapping<u32> {
  open spec fn obeys_shl_spec() -> bool { true }
  open spec fn shl_req(self, rhs: usize) -> bool { true }
  open spec fn shl_spec(self, rhs: usize) -> Self { Wrapping(self.0 << (rhs % 32)) }
}
impl core::ops::Shl<usize> for Wrapping<u32> { type Output = Self; fn shl(self, rhs: usize) -> (r: Self) { Wrapping(self.0 << (rhs % 32)) } }
impl vstd::std_specs::ops::ShlAssignSpecImpl<usize> for Wrapping<u32> {
  open spec fn obeys_shl_assign_spec() -> bool { true }
  open spec fn shl_assign_req(&self, rhs: usize) -> bool { true }
  open spec fn shl_assign_spec(&self, rhs: usize) -> &Self { &Wrapping(self.0 << (rhs % 32)) }
}
impl core::ops::ShlAssign<usize> for Wrapping<u32> { fn shl_assign(&mut self, rhs: usize) { *self = *self << rhs; } }
impl vstd::std_specs::ops::ShrSpecImpl<usize> for Wrapping<u32> {
  open spec fn obeys_shr_spec() -> bool { true }
  open spec fn shr_req(self, rhs: usize) -> bool { true }
  open spec fn shr_spec(self, rhs: usize) -> Self { Wrapping(self.0 >> (rhs % 32)) }
}
impl core::ops::Shr<usize> for Wrapping<u32> { type Output = Self; fn shr(self, rhs: usize) -> (r: Self) { Wrapping(self.0 >> (rhs % 32)) } }
impl vstd::std_specs::ops::ShrAssignSpecImpl<usize> for Wrapping<u32> {
  open spec fn obeys_shr_assign_spec() -> bool { true }
  open spec fn shr_assign_req(&self, rhs: usize) -> bool { true }
  open spec fn shr_assign_spec(&self, rhs: usize) -> &Self { &Wrapping(self.0 >> (rhs % 32)) }
}
impl core::ops::ShrAssign<usize> for Wrapping<u32> { fn shr_assign(&mut self, rhs: usize) { *self = *self >> rhs; } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Wrapping<u32> {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialEq for Wrapping<u32> { fn eq(&self, other: &Self) -> (r: bool) { self.0 == other.0 } }
impl Copy for Wrapping<u64> {}
impl Clone for Wrapping<u64> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Default for Wrapping<u64> { fn default() -> (r: Self) ensures r == Wrapping(0u64) { Wrapping(0) } }
impl vstd::std_specs::ops::AddSpecImpl<Wrapping<u64>> for Wrapping<u64> {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: Self) -> bool { true }
  open spec fn add_spec(self, rhs: Self) -> Self { Wrapping(((self.0 + rhs.0) % 0x1_0000_0000_0000_0000) as u64) }
}
impl core::ops::Add for Wrapping<u64> { type Output = Self; fn add(self, rhs: Self) -> (r: Self) { Wrapping(self.0.wrapping_add(rhs.0)) } }
impl vstd::std_specs::ops::AddAssignSpecImpl<Wrapping<u64>> for Wrapping<u64> {
  open spec fn obeys_add_assign_spec() -> bool { true }
  open spec fn add_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn add_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(((self.0 + rhs.0) % 0x1_0000_0000_0000_0000) as u64) }
}
impl core::ops::AddAssign for Wrapping<u64> { fn add_assign(&mut self, rhs: Self) { *self = Wrapping(self.0.wrapping_add(rhs.0)); } }
impl vstd::std_specs::ops::SubSpecImpl<Wrapping<u64>> for Wrapping<u64> {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: Self) -> bool { true }
  open spec fn sub_spec(self, rhs: Self) -> Self { Wrapping(((self.0 - rhs.0) % 0x1_0000_0000_0000_0000) as u64) }
}
impl core::ops::Sub for Wrapping<u64> { type Output = Self; fn sub(self, rhs: Self) -> (r: Self) { Wrapping(self.0.wrapping_sub(rhs.0)) } }
impl vstd::std_specs::ops::SubAssignSpecImpl<Wrapping<u64>> for Wrapping<u64> {
  open spec fn obeys_sub_assign_spec() -> bool { true }
  open spec fn sub_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn sub_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(((self.0 - rhs.0) % 0x1_0000_0000_0000_0000) as u64) }
}
impl core::ops::SubAssign for Wrapping<u64> { fn sub_assign(&mut self, rhs: Self) { *self = Wrapping(self.0.wrapping_sub(rhs.0)); } }
impl vstd::std_specs::ops::MulSpecImpl<Wrapping<u64>> for Wrapping<u64> {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: Self) -> bool { true }
  open spec fn mul_spec(self, rhs: Self) -> Self { Wrapping(((self.0 * rhs.0) % 0x1_0000_0000_0000_0000) as u64) }
}
impl core::ops::Mul for Wrapping<u64> { type Output = Self; fn mul(self, rhs: Self) -> (r: Self) { Wrapping(self.0.wrapping_mul(rhs.0)) } }
impl vstd::std_specs::ops::MulAssignSpecImpl<Wrapping<u64>> for Wrapping<u64> {
  open spec fn obeys_mul_assign_spec() -> bool { true }
  open spec fn mul_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn mul_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(((self.0 * rhs.0) % 0x1_0000_0000_0000_0000) as u64) }
}
impl core::ops::MulAssign for Wrapping<u64> { fn mul_assign(&mut self, rhs: Self) { *self = Wrapping(self.0.wrapping_mul(rhs.0)); } }
impl vstd::std_specs::ops::DivSpecImpl<Wrapping<u64>> for Wrapping<u64> {
  open spec fn obeys_div_spec() -> bool { true }
  open spec fn div_req(self, rhs: Self) -> bool { rhs.0 != 0 }
  open spec fn div_spec(self, rhs: Self) -> Self { Wrapping(self.0 / rhs.0) }
}
impl core::ops::Div for Wrapping<u64> { type Output = Self; fn div(self, rhs: Self) -> (r: Self) { Wrapping(self.0 / rhs.0) } }
impl vstd::std_specs::ops::DivAssignSpecImpl<Wrapping<u64>> for Wrapping<u64> {
  open spec fn obeys_div_assign_spec() -> bool { true }
  open spec fn div_assign_req(&self, rhs: Self) -> bool { rhs.0 != 0 }
  open spec fn div_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(self.0 / rhs.0) }
}
impl core::ops::DivAssign for Wrapping<u64> { fn div_assign(&mut self, rhs: Self) { *self = Wrapping(self.0 / rhs.0); } }
impl vstd::std_specs::ops::RemSpecImpl<Wrapping<u64>> for Wrapping<u64> {
  open spec fn obeys_rem_spec() -> bool { true }
  open spec fn rem_req(self, rhs: Self) -> bool { rhs.0 != 0 }
  open spec fn rem_spec(self, rhs: Self) -> Self { Wrapping(self.0 % rhs.0) }
}
impl core::ops::Rem for Wrapping<u64> { type Output = Self; fn rem(self, rhs: Self) -> (r: Self) { Wrapping(self.0 % rhs.0) } }
impl vstd::std_specs::ops::RemAssignSpecImpl<Wrapping<u64>> for Wrapping<u64> {
  open spec fn obeys_rem_assign_spec() -> bool { true }
  open spec fn rem_assign_req(&self, rhs: Self) -> bool { rhs.0 != 0 }
  open spec fn rem_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(self.0 % rhs.0) }
}
impl core::ops::RemAssign for Wrapping<u64> { fn rem_assign(&mut self, rhs: Self) { *self = Wrapping(self.0 % rhs.0); } }
impl vstd::std_specs::ops::BitAndSpecImpl<Wrapping<u64>> for Wrapping<u64> {
  open spec fn obeys_bitand_spec() -> bool { true }
  open spec fn bitand_req(self, rhs: Self) -> bool { true }
  open spec fn bitand_spec(self, rhs: Self) -> Self { Wrapping(self.0 & rhs.0) }
}
impl core::ops::BitAnd for Wrapping<u64> { type Output = Self; fn bitand(self, rhs: Self) -> (r: Self) { Wrapping(self.0 & rhs.0) } }
impl vstd::std_specs::ops::BitAndAssignSpecImpl<Wrapping<u64>> for Wrapping<u64> {
  open spec fn obeys_bitand_assign_spec() -> bool { true }
  open spec fn bitand_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn bitand_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(self.0 & rhs.0) }
}
impl core::ops::BitAndAssign for Wrapping<u64> { fn bitand_assign(&mut self, rhs: Self) { *self = Wrapping(self.0 & rhs.0); } }
impl vstd::std_specs::ops::BitOrSpecImpl<Wrapping<u64>> for Wrapping<u64> {
  open spec fn obeys_bitor_spec() -> bool { true }
  open spec fn bitor_req(self, rhs: Self) -> bool { true }
  open spec fn bitor_spec(self, rhs: Self) -> Self { Wrapping(self.0 | rhs.0) }
}
impl core::ops::BitOr for Wrapping<u64> { type Output = Self; fn bitor(self, rhs: Self) -> (r: Self) { Wrapping(self.0 | rhs.0) } }
impl vstd::std_specs::ops::BitOrAssignSpecImpl<Wrapping<u64>> for Wrapping<u64> {
  open spec fn obeys_bitor_assign_spec() -> bool { true }
  open spec fn bitor_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn bitor_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(self.0 | rhs.0) }
}
impl core::ops::BitOrAssign for Wrapping<u64> { fn bitor_assign(&mut self, rhs: Self) { *self = Wrapping(self.0 | rhs.0); } }
impl vstd::std_specs::ops::BitXorSpecImpl<Wrapping<u64>> for Wrapping<u64> {
  open spec fn obeys_bitxor_spec() -> bool { true }
  open spec fn bitxor_req(self, rhs: Self) -> bool { true }
  open spec fn bitxor_spec(self, rhs: Self) -> Self { Wrapping(self.0 ^ rhs.0) }
}
impl core::ops::BitXor for Wrapping<u64> { type Output = Self; fn bitxor(self, rhs: Self) -> (r: Self) { Wrapping(self.0 ^ rhs.0) } }
impl vstd::std_specs::ops::BitXorAssignSpecImpl<Wrapping<u64>> for Wrapping<u64> {
  open spec fn obeys_bitxor_assign_spec() -> bool { true }
  open spec fn bitxor_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn bitxor_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(self.0 ^ rhs.0) }
}
impl core::ops::BitXorAssign for Wrapping<u64> { fn bitxor_assign(&mut self, rhs: Self) { *self = Wrapping(self.0 ^ rhs.0); } }
impl vstd::std_specs::ops::ShlSpecImpl<usize> for Wrapping<u64> {
  open spec fn obeys_shl_spec() -> bool { true }
  open spec fn shl_req(self, rhs: usize) -> bool { true }
  open spec fn shl_spec(self, rhs: usize) -> Self { Wrapping(self.0 << (rhs % 64)) }
}
impl core::ops::Shl<usize> for Wrapping<u64> { type Output = Self; fn shl(self, rhs: usize) -> (r: Self) { Wrapping(self.0 << (rhs % 64)) } }
impl vstd::std_specs::ops::ShlAssignSpecImpl<usize> for Wrapping<u64> {
  open spec fn obeys_shl_assign_spec() -> bool { true }
  open spec fn shl_assign_req(&self, rhs: usize) -> bool { true }
  open spec fn shl_assign_spec(&self, rhs: usize) -> &Self { &Wrapping(self.0 << (rhs % 64)) }
}
impl core::ops::ShlAssign<usize> for Wrapping<u64> { fn shl_assign(&mut self, rhs: usize) { *self = *self << rhs; } }
impl vstd::std_specs::ops::ShrSpecImpl<usize> for Wrapping<u64> {
  open spec fn obeys_shr_spec() -> bool { true }
  open spec fn shr_req(self, rhs: usize) -> bool { true }
  open spec fn shr_spec(self, rhs: usize) -> Self { Wrapping(self.0 >> (rhs % 64)) }
}
impl core::ops::Shr<usize> for Wrapping<u64> { type Output = Self; fn shr(self, rhs: usize) -> (r: Self) { Wrapping(self.0 >> (rhs % 64)) } }
impl vstd::std_specs::ops::ShrAssignSpecImpl<usize> for Wrapping<u64> {
  open spec fn obeys_shr_assign_spec() -> bool { true }
  open spec fn shr_assign_req(&self, rhs: usize) -> bool { true }
  open spec fn shr_assign_spec(&self, rhs: usize) -> &Self { &Wrapping(self.0 >> (rhs % 64)) }
}
impl core::ops::ShrAssign<usize> for Wrapping<u64> { fn shr_assign(&mut self, rhs: usize) { *self = *self >> rhs; } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Wrapping<u64> {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialEq for Wrapping<u64> { fn eq(&self, other: &Self) -> (r: bool) { self.0 == other.0 } }
impl Copy for Wrapping<usize> {}
impl Clone for Wrapping<usize> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Default for Wrapping<usize> { fn default() -> (r: Self) ensures r == Wrapping(0usize) { Wrapping(0) } }
impl vstd::std_specs::ops::AddSpecImpl<Wrapping<usize>> for Wrapping<usize> {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: Self) -> bool { true }
  open spec fn add_spec(self, rhs: Self) -> Self { Wrapping(((self.0 + rhs.0) % 0x1_0000_0000_0000_0000) as usize) }
}
impl core::ops::Add for Wrapping<usize> { type Output = Self; fn add(self, rhs: Self) -> (r: Self) { Wrapping(self.0.wrapping_add(rhs.0)) } }
impl vstd::std_specs::ops::AddAssignSpecImpl<Wrapping<usize>> for Wrapping<usize> {
  open spec fn obeys_add_assign_spec() -> bool { true }
  open spec fn add_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn add_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(((self.0 + rhs.0) % 0x1_0000_0000_0000_0000) as usize) }
}
impl core::ops::AddAssign for Wrapping<usize> { fn add_assign(&mut self, rhs: Self) { *self = Wrapping(self.0.wrapping_add(rhs.0)); } }
impl vstd::std_specs::ops::SubSpecImpl<Wrapping<usize>> for Wrapping<usize> {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: Self) -> bool { true }
  open spec fn sub_spec(self, rhs: Self) -> Self { Wrapping(((self.0 - rhs.0) % 0x1_0000_0000_0000_0000) as usize) }
}
impl core::ops::Sub for Wrapping<usize> { type Output = Self; fn sub(self, rhs: Self) -> (r: Self) { Wrapping(self.0.wrapping_sub(rhs.0)) } }
impl vstd::std_specs::ops::SubAssignSpecImpl<Wrapping<usize>> for Wrapping<usize> {
  open spec fn obeys_sub_assign_spec() -> bool { true }
  open spec fn sub_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn sub_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(((self.0 - rhs.0) % 0x1_0000_0000_0000_0000) as usize) }
}
impl core::ops::SubAssign for Wrapping<usize> { fn sub_assign(&mut self, rhs: Self) { *self = Wrapping(self.0.wrapping_sub(rhs.0)); } }
impl vstd::std_specs::ops::MulSpecImpl<Wrapping<usize>> for Wrapping<usize> {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: Self) -> bool { true }
  open spec fn mul_spec(self, rhs: Self) -> Self { Wrapping(((self.0 * rhs.0) % 0x1_0000_0000_0000_0000) as usize) }
}
impl core::ops::Mul for Wrapping<usize> { type Output = Self; fn mul(self, rhs: Self) -> (r: Self) { Wrapping(self.0.wrapping_mul(rhs.0)) } }
impl vstd::std_specs::ops::MulAssignSpecImpl<Wrapping<usize>> for Wrapping<usize> {
  open spec fn obeys_mul_assign_spec() -> bool { true }
  open spec fn mul_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn mul_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(((self.0 * rhs.0) % 0x1_0000_0000_0000_0000) as usize) }
}
impl core::ops::MulAssign for Wrapping<usize> { fn mul_assign(&mut self, rhs: Self) { *self = Wrapping(self.0.wrapping_mul(rhs.0)); } }
impl vstd::std_specs::ops::DivSpecImpl<Wrapping<usize>> for Wrapping<usize> {
  open spec fn obeys_div_spec() -> bool { true }
  open spec fn div_req(self, rhs: Self) -> bool { rhs.0 != 0 }
  open spec fn div_spec(self, rhs: Self) -> Self { Wrapping(self.0 / rhs.0) }
}
impl core::ops::Div for Wrapping<usize> { type Output = Self; fn div(self, rhs: Self) -> (r: Self) { Wrapping(self.0 / rhs.0) } }
impl vstd::std_specs::ops::DivAssignSpecImpl<Wrapping<usize>> for Wrapping<usize> {
  open spec fn obeys_div_assign_spec() -> bool { true }
  open spec fn div_assign_req(&self, rhs: Self) -> bool { rhs.0 != 0 }
  open spec fn div_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(self.0 / rhs.0) }
}
impl core::ops::DivAssign for Wrapping<usize> { fn div_assign(&mut self, rhs: Self) { *self = Wrapping(self.0 / rhs.0); } }
impl vstd::std_specs::ops::RemSpecImpl<Wrapping<usize>> for Wrapping<usize> {
  open spec fn obeys_rem_spec() -> bool { true }
  open spec fn rem_req(self, rhs: Self) -> bool { rhs.0 != 0 }
  open spec fn rem_spec(self, rhs: Self) -> Self { Wrapping(self.0 % rhs.0) }
}
impl core::ops::Rem for Wrapping<usize> { type Output = Self; fn rem(self, rhs: Self) -> (r: Self) { Wrapping(self.0 % rhs.0) } }
impl vstd::std_specs::ops::RemAssignSpecImpl<Wrapping<usize>> for Wrapping<usize> {
  open spec fn obeys_rem_assign_spec() -> bool { true }
  open spec fn rem_assign_req(&self, rhs: Self) -> bool { rhs.0 != 0 }
  open spec fn rem_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(self.0 % rhs.0) }
}
impl core::ops::RemAssign for Wrapping<usize> { fn rem_assign(&mut self, rhs: Self) { *self = Wrapping(self.0 % rhs.0); } }
impl vstd::std_specs::ops::BitAndSpecImpl<Wrapping<usize>> for Wrapping<usize> {
  open spec fn obeys_bitand_spec() -> bool { true }
  open spec fn bitand_req(self, rhs: Self) -> bool { true }
  open spec fn bitand_spec(self, rhs: Self) -> Self { Wrapping(self.0 & rhs.0) }
}
impl core::ops::BitAnd for Wrapping<usize> { type Output = Self; fn bitand(self, rhs: Self) -> (r: Self) { Wrapping(self.0 & rhs.0) } }
impl vstd::std_specs::ops::BitAndAssignSpecImpl<Wrapping<usize>> for Wrapping<usize> {
  open spec fn obeys_bitand_assign_spec() -> bool { true }
  open spec fn bitand_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn bitand_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(self.0 & rhs.0) }
}
impl core::ops::BitAndAssign for Wrapping<usize> { fn bitand_assign(&mut self, rhs: Self) { *self = Wrapping(self.0 & rhs.0); } }
impl vstd::std_specs::ops::BitOrSpecImpl<Wrapping<usize>> for Wrapping<usize> {
  open spec fn obeys_bitor_spec() -> bool { true }
  open spec fn bitor_req(self, rhs: Self) -> bool { true }
  open spec fn bitor_spec(self, rhs: Self) -> Self { Wrapping(self.0 | rhs.0) }
}
impl core::ops::BitOr for Wrapping<usize> { type Output = Self; fn bitor(self, rhs: Self) -> (r: Self) { Wrapping(self.0 | rhs.0) } }
impl vstd::std_specs::ops::BitOrAssignSpecImpl<Wrapping<usize>> for Wrapping<usize> {
  open spec fn obeys_bitor_assign_spec() -> bool { true }
  open spec fn bitor_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn bitor_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(self.0 | rhs.0) }
}
impl core::ops::BitOrAssign for Wrapping<usize> { fn bitor_assign(&mut self, rhs: Self) { *self = Wrapping(self.0 | rhs.0); } }
impl vstd::std_specs::ops::BitXorSpecImpl<Wrapping<usize>> for Wrapping<usize> {
  open spec fn obeys_bitxor_spec() -> bool { true }
  open spec fn bitxor_req(self, rhs: Self) -> bool { true }
  open spec fn bitxor_spec(self, rhs: Self) -> Self { Wrapping(self.0 ^ rhs.0) }
}
impl core::ops::BitXor for Wrapping<usize> { type Output = Self; fn bitxor(self, rhs: Self) -> (r: Self) { Wrapping(self.0 ^ rhs.0) } }
impl vstd::std_specs::ops::BitXorAssignSpecImpl<Wrapping<usize>> for Wrapping<usize> {
  open spec fn obeys_bitxor_assign_spec() -> bool { true }
  open spec fn bitxor_assign_req(&self, rhs: Self) -> bool { true }
  open spec fn bitxor_assign_spec(&self, rhs: Self) -> &Self { &Wrapping(self.0 ^ rhs.0) }
}
impl core::ops::BitXorAssign for Wrapping<usize> { fn bitxor_assign(&mut self, rhs: Self) { *self = Wrapping(self.0 ^ rhs.0); } }
impl vstd::std_specs::ops::ShlSpecImpl<usize> for Wrapping<usize> {
  open spec fn obeys_shl_spec() -> bool { true }
  open spec fn shl_req(self, rhs: usize) -> bool { true }
  open spec fn shl_spec(self, rhs: usize) -> Self { Wrapping(self.0 << (rhs % 64)) }
}
impl core::ops::Shl<usize> for Wrapping<usize> { type Output = Self; fn shl(self, rhs: usize) -> (r: Self) { Wrapping(self.0 << (rhs % 64)) } }
impl vstd::std_specs::ops::ShlAssignSpecImpl<usize> for Wrapping<usize> {
  open spec fn obeys_shl_assign_spec() -> bool { true }
  open spec fn shl_assign_req(&self, rhs: usize) -> bool { true }
  open spec fn shl_assign_spec(&self, rhs: usize) -> &Self { &Wrapping(self.0 << (rhs % 64)) }
}
impl core::ops::ShlAssign<usize> for Wrapping<usize> { fn shl_assign(&mut self, rhs: usize) { *self = *self << rhs; } }
impl vstd::std_specs::ops::ShrSpecImpl<usize> for Wrapping<usize> {
  open spec fn obeys_shr_spec() -> bool { true }
  open spec fn shr_req(self, rhs: usize) -> bool { true }
  open spec fn shr_spec(self, rhs: usize) -> Self { Wrapping(self.0 >> (rhs % 64)) }
}
impl core::ops::Shr<usize> for Wrapping<usize> { type Output = Self; fn shr(self, rhs: usize) -> (r: Self) { Wrapping(self.0 >> (rhs % 64)) } }
impl vstd::std_specs::ops::ShrAssignSpecImpl<usize> for Wrapping<usize> {
  open spec fn obeys_shr_assign_spec() -> bool { true }
  open spec fn shr_assign_req(&self, rhs: usize) -> bool { true }
  open spec fn shr_assign_spec(&self, rhs: usize) -> &Self { &Wrapping(self.0 >> (rhs % 64)) }
}
impl core::ops::ShrAssign<usize> for Wrapping<usize> { fn shr_assign(&mut self, rhs: usize) { *self = *self >> rhs; } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Wrapping<usize> {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialEq for Wrapping<usize> { fn eq(&self, other: &Self) -> (r: bool) { self.0 == other.0 } }
} // verus!
