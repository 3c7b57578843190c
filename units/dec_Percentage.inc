#[derive(Clone, Copy)]
pub struct Percentage(pub u128);
impl Percentage { pub open spec fn d(&self) -> int { self.0 as int }
    #[verifier::external_body] pub fn default() -> (r: Percentage) ensures r.d() == 0 { unimplemented!() } }
pub proof fn percentage_ext(a: Percentage, b: Percentage) requires a.d() == b.d() ensures a == b {  }
impl PartialEq for Percentage { #[verifier::external_body] fn eq(&self, o: &Percentage) -> (r: bool) ensures r == (self.d() == o.d()), r == (*self == *o) { unimplemented!() } }
impl Eq for Percentage {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Percentage { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Percentage) -> bool { *self == *o } }
impl PartialOrd for Percentage { #[verifier::external_body] fn partial_cmp(&self, o: &Percentage) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Percentage { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Percentage) -> Option<core::cmp::Ordering> { if self.d() < o.d() { Some(core::cmp::Ordering::Less) } else if self.d() > o.d() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl Conversion for Percentage {}
impl vstd::std_specs::ops::AddSpecImpl<Percentage> for Percentage { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: Percentage) -> bool { true } open spec fn add_spec(self, o: Percentage) -> Percentage { arbitrary() } }
impl vstd::std_specs::ops::SubSpecImpl<Percentage> for Percentage { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: Percentage) -> bool { true } open spec fn sub_spec(self, o: Percentage) -> Percentage { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::MulSpecImpl<T> for Percentage where T::U: VTryInto<u128> { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: T) -> bool { true } open spec fn mul_spec(self, o: T) -> Percentage { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::DivSpecImpl<T> for Percentage where T::U: VTryInto<u128> { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: T) -> bool { true } open spec fn div_spec(self, o: T) -> Percentage { arbitrary() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<Percentage> for Percentage { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: Percentage) -> bool { true } open spec fn add_assign_spec(&self, o: Percentage) -> &Percentage { arbitrary() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<Percentage> for Percentage { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, o: Percentage) -> bool { true } open spec fn sub_assign_spec(&self, o: Percentage) -> &Percentage { arbitrary() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<Percentage> for Percentage { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, o: Percentage) -> bool { true } open spec fn mul_assign_spec(&self, o: Percentage) -> &Percentage { arbitrary() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<Percentage> for Percentage { open spec fn obeys_div_assign_spec() -> bool { false } open spec fn div_assign_req(&self, o: Percentage) -> bool { true } open spec fn div_assign_spec(&self, o: Percentage) -> &Percentage { arbitrary() } }
impl Decimal for Percentage {
    type U = u128;
    open spec fn dv(&self) -> int { self.d() }
    open spec fn sone() -> int { 1000000000000 }
    open spec fn sscale() -> int { 12 }
    open spec fn dmax() -> int { ((18446744073709551616 * 18446744073709551616) - 1) }
    #[verifier::external_body] fn get(&self) -> (r: u128) { unimplemented!() }
    #[verifier::external_body] fn new(value: u128) -> (r: Percentage) { unimplemented!() }
    #[verifier::external_body] fn max_instance() -> (r: Percentage) { unimplemented!() }
    #[verifier::external_body] fn max_value() -> (r: u128) { unimplemented!() }
    #[verifier::external_body] fn scale() -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn checked_one() -> (r: Result<Percentage, VString>) { unimplemented!() }
    #[verifier::external_body] fn one() -> (r: Percentage) { unimplemented!() }
    #[verifier::external_body] fn checked_almost_one() -> (r: Result<Percentage, VString>) { unimplemented!() }
    #[verifier::external_body] fn almost_one() -> (r: Percentage) { unimplemented!() }
}
impl core::ops::Add for Percentage { type Output = Percentage; #[verifier::external_body] fn add(self, rhs: Percentage) -> (r: Percentage) ensures r.d() == self.d() + rhs.d() { unimplemented!() } }
impl core::ops::Sub for Percentage { type Output = Percentage; #[verifier::external_body] fn sub(self, rhs: Percentage) -> (r: Percentage) ensures r.d() == self.d() - rhs.d() { unimplemented!() } }
impl<T: Decimal> core::ops::Mul<T> for Percentage where T::U: VTryInto<u128> { type Output = Percentage; #[verifier::external_body] fn mul(self, rhs: T) -> (r: Percentage) ensures r.d() == self.d() * rhs.dv() / T::sone() { unimplemented!() } }
impl<T: Decimal> core::ops::Div<T> for Percentage where T::U: VTryInto<u128> { type Output = Percentage; #[verifier::external_body] fn div(self, rhs: T) -> (r: Percentage) ensures rhs.dv() != 0, r.d() == self.d() * T::sone() / rhs.dv() { unimplemented!() } }
impl core::ops::AddAssign for Percentage { #[verifier::external_body] fn add_assign(&mut self, rhs: Percentage) ensures final(self).d() == old(self).d() + rhs.d() { unimplemented!() } }
impl core::ops::SubAssign for Percentage { #[verifier::external_body] fn sub_assign(&mut self, rhs: Percentage) ensures final(self).d() == old(self).d() - rhs.d() { unimplemented!() } }
impl core::ops::MulAssign for Percentage { #[verifier::external_body] fn mul_assign(&mut self, rhs: Percentage) ensures final(self).d() == muldiv(old(self).d(), rhs.d(), Self::sone()) { unimplemented!() } }
impl core::ops::DivAssign for Percentage { #[verifier::external_body] fn div_assign(&mut self, rhs: Percentage) ensures rhs.d() != 0, final(self).d() == old(self).d() * Self::sone() / rhs.d() { unimplemented!() } }
impl<T: Decimal + Conversion> BigOps<T> for Percentage where U256: UintCast<<T as Decimal>::U> { open spec fn bmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) }
    #[verifier::external_body] fn big_mul(self, rhs: T) -> (r: Percentage) { unimplemented!() }
    #[verifier::external_body] fn big_mul_up(self, rhs: T) -> (r: Percentage) { unimplemented!() }
    #[verifier::external_body] fn big_div(self, rhs: T) -> (r: Percentage) { unimplemented!() }
    #[verifier::external_body] fn big_div_up(self, rhs: T) -> (r: Percentage) { unimplemented!() }
    #[verifier::external_body] fn checked_big_div(self, rhs: T) -> (r: Result<Percentage, VString>) { unimplemented!() }
}
impl ByNumber<U256> for Percentage { open spec fn nmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) }
    #[verifier::external_body] fn big_div_by_number(self, rhs: U256) -> (r: Percentage) { unimplemented!() }
    #[verifier::external_body] fn big_div_by_number_up(self, rhs: U256) -> (r: Percentage) { unimplemented!() }
    #[verifier::external_body] fn checked_big_div_by_number(self, rhs: U256) -> (r: Result<Percentage, VString>) { unimplemented!() }
    #[verifier::external_body] fn checked_big_div_by_number_up(self, rhs: U256) -> (r: Result<Percentage, VString>) { unimplemented!() }
}
impl<T: Decimal + Conversion> ToValue<T, U256> for Percentage where U256: UintCast<<T as Decimal>::U> {
    #[verifier::external_body] fn big_mul_to_value(self, rhs: T) -> (r: U256) { unimplemented!() }
    #[verifier::external_body] fn big_mul_to_value_up(self, rhs: T) -> (r: U256) { unimplemented!() }
}
impl<T: Decimal> Others<T> for Percentage where T::U: VTryInto<u128> {
    #[verifier::external_body] fn mul_up(self, rhs: T) -> (r: Percentage) { unimplemented!() }
    #[verifier::external_body] fn div_up(self, rhs: T) -> (r: Percentage) { unimplemented!() }
}
impl OthersSameType for Percentage {
    #[verifier::external_body] fn sub_abs(self, rhs: Self) -> (r: Percentage) { unimplemented!() }
}
impl<T: UVal> Factories<T> for Percentage where u128: UintCast<T> {
    #[verifier::external_body] fn from_integer(integer: T) -> (r: Percentage) { unimplemented!() }
    #[verifier::external_body] fn from_scale(integer: T, scale: u8) -> (r: Percentage) { unimplemented!() }
    #[verifier::external_body] fn checked_from_scale(integer: T, scale: u8) -> (r: Result<Percentage, VString>) { unimplemented!() }
    #[verifier::external_body] fn from_scale_up(integer: T, scale: u8) -> (r: Percentage) { unimplemented!() }
}
impl FactoriesUnderlying for Percentage {
    #[verifier::external_body] fn from_integer_underlying(integer: u128) -> (r: Percentage) { unimplemented!() }
    #[verifier::external_body] fn from_scale_underlying(integer: u128, scale: u8) -> (r: Percentage) { unimplemented!() }
    #[verifier::external_body] fn checked_from_scale_underlying(integer: u128, scale: u8) -> (r: Result<Percentage, VString>) { unimplemented!() }
    #[verifier::external_body] fn from_scale_up_underlying(integer: u128, scale: u8) -> (r: Percentage) { unimplemented!() }
}
impl<T: Decimal> BetweenDecimals<T> for Percentage where Self: Factories<T::U> {
    #[verifier::external_body] fn from_decimal(other: T) -> (r: Percentage) { unimplemented!() }
    #[verifier::external_body] fn checked_from_decimal(other: T) -> (r: Result<Percentage, VString>) { unimplemented!() }
    #[verifier::external_body] fn from_decimal_up(other: T) -> (r: Percentage) { unimplemented!() }
}
impl<T: UVal> FactoriesToValue<T, U256> for Percentage where U256: UintCast<T> {
    #[verifier::external_body] fn checked_from_scale_to_value(val: T, scale: u8) -> (r: Result<U256, VString>) { unimplemented!() }
}
impl<T: Decimal, B: UVal> BetweenDecimalsToValue<T, B> for Percentage where Self: FactoriesToValue<T::U, B> {
    #[verifier::external_body] fn checked_from_decimal_to_value(other: T) -> (r: Result<B, VString>) { unimplemented!() }
}
impl CheckedOps for Percentage {
    #[verifier::external_body] fn checked_add(self, rhs: Self) -> (r: Result<Percentage, VString>) { unimplemented!() }
    #[verifier::external_body] fn checked_sub(self, rhs: Self) -> (r: Result<Percentage, VString>) { unimplemented!() }
    #[verifier::external_body] fn checked_div(self, rhs: Self) -> (r: Result<Percentage, VString>) { unimplemented!() }
}
impl Percentage { #[verifier::external_body] pub fn is_zero(self) -> (r: bool) ensures r == (self.d() == 0) { unimplemented!() } }
