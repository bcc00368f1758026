//TRUST-GROUP ibig::IBig (dependency) behaves as exact mathematical integers: + - * / % << >> & pow, comparison, clone, literals, From<u8..usize,i32>
// ---- ibig::IBig (dependency): assumed to be exact integer arithmetic; every body below is trusted ----
pub struct IBig { pub v: Ghost<int> }
pub  open spec fn ib(v: int) -> IBig { IBig { v: Ghost(v) } }
pub  open spec fn iabs(a: int) -> int { if a < 0 { -a } else { a } }
/// division rounding towards zero
pub  open spec fn tdiv(a: int, b: int) -> int { if (a < 0) == (b < 0) { iabs(a) / iabs(b) } else { -(iabs(a) / iabs(b)) } }
/// remainder with the sign of the dividend
pub  open spec fn trem(a: int, b: int) -> int { if a < 0 { -(iabs(a) % iabs(b)) } else { iabs(a) % iabs(b) } }
pub  open spec fn ipow2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * ipow2(n - 1) } }
pub  open spec fn ipow(a: int, n: int) -> int decreases n { if n <= 0 { 1 } else { a * ipow(a, n - 1) } }
/// bitwise and of non-negative integers
pub  open spec fn iand(a: int, b: int) -> int decreases a { if a <= 0 || b <= 0 { 0 } else { (a % 2) * (b % 2) + 2 * iand(a / 2, b / 2) } }
#[verifier::external_body]
fn ibig_lit(v: Ghost<int>) -> (r: IBig) ensures r.v@ == v@, { unimplemented!() }
impl Clone for IBig { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl IBig {
    #[verifier::external_body] fn pow(&self, n: usize) -> (r: IBig) ensures r.v@ == ipow(self.v@, n as int), { unimplemented!() }
}
impl AddSpecImpl<IBig> for IBig { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: IBig) -> bool { true } open spec fn add_spec(self, o: IBig) -> IBig { ib(self.v@ + (o.v@)) } }
impl core::ops::Add<IBig> for IBig { type Output = IBig; #[verifier::external_body] fn add(self, o: IBig) -> IBig { unimplemented!() } }
impl AddSpecImpl<&IBig> for IBig { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: &IBig) -> bool { true } open spec fn add_spec(self, o: &IBig) -> IBig { ib(self.v@ + (o.v@)) } }
impl core::ops::Add<&IBig> for IBig { type Output = IBig; #[verifier::external_body] fn add(self, o: &IBig) -> IBig { unimplemented!() } }
impl AddSpecImpl<IBig> for &IBig { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: IBig) -> bool { true } open spec fn add_spec(self, o: IBig) -> IBig { ib(self.v@ + (o.v@)) } }
impl core::ops::Add<IBig> for &IBig { type Output = IBig; #[verifier::external_body] fn add(self, o: IBig) -> IBig { unimplemented!() } }
impl AddSpecImpl<&IBig> for &IBig { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: &IBig) -> bool { true } open spec fn add_spec(self, o: &IBig) -> IBig { ib(self.v@ + (o.v@)) } }
impl core::ops::Add<&IBig> for &IBig { type Output = IBig; #[verifier::external_body] fn add(self, o: &IBig) -> IBig { unimplemented!() } }
impl SubSpecImpl<IBig> for IBig { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: IBig) -> bool { true } open spec fn sub_spec(self, o: IBig) -> IBig { ib(self.v@ - (o.v@)) } }
impl core::ops::Sub<IBig> for IBig { type Output = IBig; #[verifier::external_body] fn sub(self, o: IBig) -> IBig { unimplemented!() } }
impl SubSpecImpl<&IBig> for IBig { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: &IBig) -> bool { true } open spec fn sub_spec(self, o: &IBig) -> IBig { ib(self.v@ - (o.v@)) } }
impl core::ops::Sub<&IBig> for IBig { type Output = IBig; #[verifier::external_body] fn sub(self, o: &IBig) -> IBig { unimplemented!() } }
impl SubSpecImpl<IBig> for &IBig { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: IBig) -> bool { true } open spec fn sub_spec(self, o: IBig) -> IBig { ib(self.v@ - (o.v@)) } }
impl core::ops::Sub<IBig> for &IBig { type Output = IBig; #[verifier::external_body] fn sub(self, o: IBig) -> IBig { unimplemented!() } }
impl SubSpecImpl<&IBig> for &IBig { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: &IBig) -> bool { true } open spec fn sub_spec(self, o: &IBig) -> IBig { ib(self.v@ - (o.v@)) } }
impl core::ops::Sub<&IBig> for &IBig { type Output = IBig; #[verifier::external_body] fn sub(self, o: &IBig) -> IBig { unimplemented!() } }
impl MulSpecImpl<IBig> for IBig { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: IBig) -> bool { true } open spec fn mul_spec(self, o: IBig) -> IBig { ib(self.v@ * (o.v@)) } }
impl core::ops::Mul<IBig> for IBig { type Output = IBig; #[verifier::external_body] fn mul(self, o: IBig) -> IBig { unimplemented!() } }
impl MulSpecImpl<&IBig> for IBig { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: &IBig) -> bool { true } open spec fn mul_spec(self, o: &IBig) -> IBig { ib(self.v@ * (o.v@)) } }
impl core::ops::Mul<&IBig> for IBig { type Output = IBig; #[verifier::external_body] fn mul(self, o: &IBig) -> IBig { unimplemented!() } }
impl MulSpecImpl<i32> for IBig { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: i32) -> bool { true } open spec fn mul_spec(self, o: i32) -> IBig { ib(self.v@ * (o as int)) } }
impl core::ops::Mul<i32> for IBig { type Output = IBig; #[verifier::external_body] fn mul(self, o: i32) -> IBig { unimplemented!() } }
impl MulSpecImpl<IBig> for &IBig { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: IBig) -> bool { true } open spec fn mul_spec(self, o: IBig) -> IBig { ib(self.v@ * (o.v@)) } }
impl core::ops::Mul<IBig> for &IBig { type Output = IBig; #[verifier::external_body] fn mul(self, o: IBig) -> IBig { unimplemented!() } }
impl MulSpecImpl<&IBig> for &IBig { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: &IBig) -> bool { true } open spec fn mul_spec(self, o: &IBig) -> IBig { ib(self.v@ * (o.v@)) } }
impl core::ops::Mul<&IBig> for &IBig { type Output = IBig; #[verifier::external_body] fn mul(self, o: &IBig) -> IBig { unimplemented!() } }
impl DivSpecImpl<IBig> for IBig { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: IBig) -> bool { (o.v@) != 0 } open spec fn div_spec(self, o: IBig) -> IBig { ib(tdiv(self.v@, (o.v@))) } }
impl core::ops::Div<IBig> for IBig { type Output = IBig; #[verifier::external_body] fn div(self, o: IBig) -> IBig { unimplemented!() } }
impl DivSpecImpl<&IBig> for IBig { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: &IBig) -> bool { (o.v@) != 0 } open spec fn div_spec(self, o: &IBig) -> IBig { ib(tdiv(self.v@, (o.v@))) } }
impl core::ops::Div<&IBig> for IBig { type Output = IBig; #[verifier::external_body] fn div(self, o: &IBig) -> IBig { unimplemented!() } }
impl DivSpecImpl<i32> for IBig { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: i32) -> bool { (o as int) != 0 } open spec fn div_spec(self, o: i32) -> IBig { ib(tdiv(self.v@, (o as int))) } }
impl core::ops::Div<i32> for IBig { type Output = IBig; #[verifier::external_body] fn div(self, o: i32) -> IBig { unimplemented!() } }
impl DivSpecImpl<IBig> for &IBig { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: IBig) -> bool { (o.v@) != 0 } open spec fn div_spec(self, o: IBig) -> IBig { ib(tdiv(self.v@, (o.v@))) } }
impl core::ops::Div<IBig> for &IBig { type Output = IBig; #[verifier::external_body] fn div(self, o: IBig) -> IBig { unimplemented!() } }
impl DivSpecImpl<&IBig> for &IBig { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: &IBig) -> bool { (o.v@) != 0 } open spec fn div_spec(self, o: &IBig) -> IBig { ib(tdiv(self.v@, (o.v@))) } }
impl core::ops::Div<&IBig> for &IBig { type Output = IBig; #[verifier::external_body] fn div(self, o: &IBig) -> IBig { unimplemented!() } }
impl RemSpecImpl<IBig> for IBig { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, o: IBig) -> bool { (o.v@) != 0 } open spec fn rem_spec(self, o: IBig) -> IBig { ib(trem(self.v@, (o.v@))) } }
impl core::ops::Rem<IBig> for IBig { type Output = IBig; #[verifier::external_body] fn rem(self, o: IBig) -> IBig { unimplemented!() } }
impl RemSpecImpl<&IBig> for IBig { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, o: &IBig) -> bool { (o.v@) != 0 } open spec fn rem_spec(self, o: &IBig) -> IBig { ib(trem(self.v@, (o.v@))) } }
impl core::ops::Rem<&IBig> for IBig { type Output = IBig; #[verifier::external_body] fn rem(self, o: &IBig) -> IBig { unimplemented!() } }
impl RemSpecImpl<i32> for IBig { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, o: i32) -> bool { (o as int) != 0 } open spec fn rem_spec(self, o: i32) -> IBig { ib(trem(self.v@, (o as int))) } }
impl core::ops::Rem<i32> for IBig { type Output = IBig; #[verifier::external_body] fn rem(self, o: i32) -> IBig { unimplemented!() } }
impl RemSpecImpl<IBig> for &IBig { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, o: IBig) -> bool { (o.v@) != 0 } open spec fn rem_spec(self, o: IBig) -> IBig { ib(trem(self.v@, (o.v@))) } }
impl core::ops::Rem<IBig> for &IBig { type Output = IBig; #[verifier::external_body] fn rem(self, o: IBig) -> IBig { unimplemented!() } }
impl RemSpecImpl<&IBig> for &IBig { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, o: &IBig) -> bool { (o.v@) != 0 } open spec fn rem_spec(self, o: &IBig) -> IBig { ib(trem(self.v@, (o.v@))) } }
impl core::ops::Rem<&IBig> for &IBig { type Output = IBig; #[verifier::external_body] fn rem(self, o: &IBig) -> IBig { unimplemented!() } }
impl ShlSpecImpl<usize> for IBig { open spec fn obeys_shl_spec() -> bool { true } open spec fn shl_req(self, o: usize) -> bool { true } open spec fn shl_spec(self, o: usize) -> IBig { ib(self.v@ * ipow2(o as int)) } }
impl core::ops::Shl<usize> for IBig { type Output = IBig; #[verifier::external_body] fn shl(self, o: usize) -> IBig { unimplemented!() } }
impl ShrSpecImpl<usize> for IBig { open spec fn obeys_shr_spec() -> bool { true } open spec fn shr_req(self, o: usize) -> bool { true } open spec fn shr_spec(self, o: usize) -> IBig { ib(self.v@ / ipow2(o as int)) } }
impl core::ops::Shr<usize> for IBig { type Output = IBig; #[verifier::external_body] fn shr(self, o: usize) -> IBig { unimplemented!() } }
impl BitAndSpecImpl<IBig> for IBig { open spec fn obeys_bitand_spec() -> bool { true } open spec fn bitand_req(self, o: IBig) -> bool { self.v@ >= 0 && o.v@ >= 0 } open spec fn bitand_spec(self, o: IBig) -> IBig { ib(iand(self.v@, o.v@)) } }
impl core::ops::BitAnd<IBig> for IBig { type Output = IBig; #[verifier::external_body] fn bitand(self, o: IBig) -> IBig { unimplemented!() } }
impl AddAssignSpecImpl<IBig> for IBig { open spec fn obeys_add_assign_spec() -> bool { true } open spec fn add_assign_req(&self, o: IBig) -> bool { true } open spec fn add_assign_spec(&self, o: IBig) -> &Self { &ib(self.v@ + o.v@) } }
impl core::ops::AddAssign<IBig> for IBig { #[verifier::external_body] fn add_assign(&mut self, o: IBig) { unimplemented!() } }
impl SubAssignSpecImpl<IBig> for IBig { open spec fn obeys_sub_assign_spec() -> bool { true } open spec fn sub_assign_req(&self, o: IBig) -> bool { true } open spec fn sub_assign_spec(&self, o: IBig) -> &Self { &ib(self.v@ - o.v@) } }
impl core::ops::SubAssign<IBig> for IBig { #[verifier::external_body] fn sub_assign(&mut self, o: IBig) { unimplemented!() } }
impl MulAssignSpecImpl<IBig> for IBig { open spec fn obeys_mul_assign_spec() -> bool { true } open spec fn mul_assign_req(&self, o: IBig) -> bool { true } open spec fn mul_assign_spec(&self, o: IBig) -> &Self { &ib(self.v@ * o.v@) } }
impl core::ops::MulAssign<IBig> for IBig { #[verifier::external_body] fn mul_assign(&mut self, o: IBig) { unimplemented!() } }
impl RemAssignSpecImpl<IBig> for IBig { open spec fn obeys_rem_assign_spec() -> bool { true } open spec fn rem_assign_req(&self, o: IBig) -> bool { o.v@ != 0 } open spec fn rem_assign_spec(&self, o: IBig) -> &Self { &ib(trem(self.v@, o.v@)) } }
impl core::ops::RemAssign<IBig> for IBig { #[verifier::external_body] fn rem_assign(&mut self, o: IBig) { unimplemented!() } }
impl BitAndAssignSpecImpl<IBig> for IBig { open spec fn obeys_bitand_assign_spec() -> bool { true } open spec fn bitand_assign_req(&self, o: IBig) -> bool { self.v@ >= 0 && o.v@ >= 0 } open spec fn bitand_assign_spec(&self, o: IBig) -> &Self { &ib(iand(self.v@, o.v@)) } }
impl core::ops::BitAndAssign<IBig> for IBig { #[verifier::external_body] fn bitand_assign(&mut self, o: IBig) { unimplemented!() } }
impl PartialEqSpecImpl for IBig { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &IBig) -> bool { self.v@ == o.v@ } }
impl PartialEq for IBig { #[verifier::external_body] fn eq(&self, o: &IBig) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for IBig { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &IBig) -> Option<core::cmp::Ordering> { if self.v@ < o.v@ { Some(core::cmp::Ordering::Less) } else if self.v@ == o.v@ { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) } } }
impl PartialOrd for IBig { #[verifier::external_body] fn partial_cmp(&self, o: &IBig) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl FromSpecImpl<u8> for IBig { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: u8) -> IBig { ib(x as int) } }
impl core::convert::From<u8> for IBig { #[verifier::external_body] fn from(x: u8) -> (r: Self) { unimplemented!() } }
impl FromSpecImpl<u16> for IBig { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: u16) -> IBig { ib(x as int) } }
impl core::convert::From<u16> for IBig { #[verifier::external_body] fn from(x: u16) -> (r: Self) { unimplemented!() } }
impl FromSpecImpl<u32> for IBig { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: u32) -> IBig { ib(x as int) } }
impl core::convert::From<u32> for IBig { #[verifier::external_body] fn from(x: u32) -> (r: Self) { unimplemented!() } }
impl FromSpecImpl<i32> for IBig { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: i32) -> IBig { ib(x as int) } }
impl core::convert::From<i32> for IBig { #[verifier::external_body] fn from(x: i32) -> (r: Self) { unimplemented!() } }
impl FromSpecImpl<u64> for IBig { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: u64) -> IBig { ib(x as int) } }
impl core::convert::From<u64> for IBig { #[verifier::external_body] fn from(x: u64) -> (r: Self) { unimplemented!() } }
impl FromSpecImpl<usize> for IBig { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: usize) -> IBig { ib(x as int) } }
impl core::convert::From<usize> for IBig { #[verifier::external_body] fn from(x: usize) -> (r: Self) { unimplemented!() } }
//TRUST-END
