#[derive(Clone, Copy)]
pub struct Liquidity(pub U256);
impl Liquidity { pub open spec fn d(&self) -> int { self.0.uv() }
    #[verifier::external_body] pub fn default() -> (r: Liquidity) ensures r.d() == 0 { unimplemented!() } }
pub proof fn liquidity_ext(a: Liquidity, b: Liquidity) requires a.d() == b.d() ensures a == b { 
    reveal(u256_val); let (x, y) = (a.0.0, b.0.0); let w = 18446744073709551616int;
    l_digit(x[0] as int, y[0] as int, (x[1] as int) + w * ((x[2] as int) + w * (x[3] as int)), (y[1] as int) + w * ((y[2] as int) + w * (y[3] as int)));
    l_digit(x[1] as int, y[1] as int, (x[2] as int) + w * (x[3] as int), (y[2] as int) + w * (y[3] as int)); l_digit(x[2] as int, y[2] as int, x[3] as int, y[3] as int);
    assert(x =~= y);
 }
pub proof fn l_digit(x: int, y: int, p: int, q: int) requires 0 <= x <= 18446744073709551615, 0 <= y <= 18446744073709551615, x + 18446744073709551616int * p == y + 18446744073709551616int * q ensures x == y, p == q { }
impl PartialEq for Liquidity { #[verifier::external_body] fn eq(&self, o: &Liquidity) -> (r: bool) ensures r == (self.d() == o.d()), r == (*self == *o) { unimplemented!() } }
impl Eq for Liquidity {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Liquidity { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Liquidity) -> bool { *self == *o } }
impl PartialOrd for Liquidity { #[verifier::external_body] fn partial_cmp(&self, o: &Liquidity) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Liquidity { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Liquidity) -> Option<core::cmp::Ordering> { if self.d() < o.d() { Some(core::cmp::Ordering::Less) } else if self.d() > o.d() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl Conversion for Liquidity {}
impl vstd::std_specs::ops::AddSpecImpl<Liquidity> for Liquidity { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: Liquidity) -> bool { true } open spec fn add_spec(self, o: Liquidity) -> Liquidity { arbitrary() } }
impl vstd::std_specs::ops::SubSpecImpl<Liquidity> for Liquidity { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: Liquidity) -> bool { true } open spec fn sub_spec(self, o: Liquidity) -> Liquidity { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::MulSpecImpl<T> for Liquidity where T::U: VTryInto<U256> { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: T) -> bool { true } open spec fn mul_spec(self, o: T) -> Liquidity { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::DivSpecImpl<T> for Liquidity where T::U: VTryInto<U256> { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: T) -> bool { true } open spec fn div_spec(self, o: T) -> Liquidity { arbitrary() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<Liquidity> for Liquidity { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: Liquidity) -> bool { true } open spec fn add_assign_spec(&self, o: Liquidity) -> &Liquidity { arbitrary() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<Liquidity> for Liquidity { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, o: Liquidity) -> bool { true } open spec fn sub_assign_spec(&self, o: Liquidity) -> &Liquidity { arbitrary() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<Liquidity> for Liquidity { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, o: Liquidity) -> bool { true } open spec fn mul_assign_spec(&self, o: Liquidity) -> &Liquidity { arbitrary() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<Liquidity> for Liquidity { open spec fn obeys_div_assign_spec() -> bool { false } open spec fn div_assign_req(&self, o: Liquidity) -> bool { true } open spec fn div_assign_spec(&self, o: Liquidity) -> &Liquidity { arbitrary() } }
impl Decimal for Liquidity {
    type U = U256;
    open spec fn dv(&self) -> int { self.d() }
    open spec fn sone() -> int { 100000 }
    open spec fn sscale() -> int { 5 }
    open spec fn dmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) }
    #[verifier::external_body] fn get(&self) -> (r: U256) { unimplemented!() }
    #[verifier::external_body] fn new(value: U256) -> (r: Liquidity) { unimplemented!() }
    #[verifier::external_body] fn max_instance() -> (r: Liquidity) { unimplemented!() }
    #[verifier::external_body] fn max_value() -> (r: U256) { unimplemented!() }
    #[verifier::external_body] fn scale() -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn checked_one() -> (r: Result<Liquidity, VString>) { unimplemented!() }
    #[verifier::external_body] fn one() -> (r: Liquidity) { unimplemented!() }
    #[verifier::external_body] fn checked_almost_one() -> (r: Result<Liquidity, VString>) { unimplemented!() }
    #[verifier::external_body] fn almost_one() -> (r: Liquidity) { unimplemented!() }
}
impl core::ops::Add for Liquidity { type Output = Liquidity; #[verifier::external_body] fn add(self, rhs: Liquidity) -> (r: Liquidity) ensures r.d() == self.d() + rhs.d() { unimplemented!() } }
impl core::ops::Sub for Liquidity { type Output = Liquidity; #[verifier::external_body] fn sub(self, rhs: Liquidity) -> (r: Liquidity) ensures r.d() == self.d() - rhs.d() { unimplemented!() } }
impl<T: Decimal> core::ops::Mul<T> for Liquidity where T::U: VTryInto<U256> { type Output = Liquidity; #[verifier::external_body] fn mul(self, rhs: T) -> (r: Liquidity) ensures r.d() == self.d() * rhs.dv() / T::sone() { unimplemented!() } }
impl<T: Decimal> core::ops::Div<T> for Liquidity where T::U: VTryInto<U256> { type Output = Liquidity; #[verifier::external_body] fn div(self, rhs: T) -> (r: Liquidity) ensures rhs.dv() != 0, r.d() == self.d() * T::sone() / rhs.dv() { unimplemented!() } }
impl core::ops::AddAssign for Liquidity { #[verifier::external_body] fn add_assign(&mut self, rhs: Liquidity) ensures final(self).d() == old(self).d() + rhs.d() { unimplemented!() } }
impl core::ops::SubAssign for Liquidity { #[verifier::external_body] fn sub_assign(&mut self, rhs: Liquidity) ensures final(self).d() == old(self).d() - rhs.d() { unimplemented!() } }
impl core::ops::MulAssign for Liquidity { #[verifier::external_body] fn mul_assign(&mut self, rhs: Liquidity) ensures final(self).d() == muldiv(old(self).d(), rhs.d(), Self::sone()) { unimplemented!() } }
impl core::ops::DivAssign for Liquidity { #[verifier::external_body] fn div_assign(&mut self, rhs: Liquidity) ensures rhs.d() != 0, final(self).d() == old(self).d() * Self::sone() / rhs.d() { unimplemented!() } }
impl<T: Decimal + Conversion> BigOps<T> for Liquidity where U512: UintCast<<T as Decimal>::U> { open spec fn bmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))))) - 1) }
    #[verifier::external_body] fn big_mul(self, rhs: T) -> (r: Liquidity) { unimplemented!() }
    #[verifier::external_body] fn big_mul_up(self, rhs: T) -> (r: Liquidity) { unimplemented!() }
    #[verifier::external_body] fn big_div(self, rhs: T) -> (r: Liquidity) { unimplemented!() }
    #[verifier::external_body] fn big_div_up(self, rhs: T) -> (r: Liquidity) { unimplemented!() }
    #[verifier::external_body] fn checked_big_div(self, rhs: T) -> (r: Result<Liquidity, VString>) { unimplemented!() }
}
impl ByNumber<U512> for Liquidity { open spec fn nmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))))) - 1) }
    #[verifier::external_body] fn big_div_by_number(self, rhs: U512) -> (r: Liquidity) { unimplemented!() }
    #[verifier::external_body] fn big_div_by_number_up(self, rhs: U512) -> (r: Liquidity) { unimplemented!() }
    #[verifier::external_body] fn checked_big_div_by_number(self, rhs: U512) -> (r: Result<Liquidity, VString>) { unimplemented!() }
    #[verifier::external_body] fn checked_big_div_by_number_up(self, rhs: U512) -> (r: Result<Liquidity, VString>) { unimplemented!() }
}
impl<T: Decimal + Conversion> ToValue<T, U512> for Liquidity where U512: UintCast<<T as Decimal>::U> {
    #[verifier::external_body] fn big_mul_to_value(self, rhs: T) -> (r: U512) { unimplemented!() }
    #[verifier::external_body] fn big_mul_to_value_up(self, rhs: T) -> (r: U512) { unimplemented!() }
}
impl<T: Decimal> Others<T> for Liquidity where T::U: VTryInto<U256> {
    #[verifier::external_body] fn mul_up(self, rhs: T) -> (r: Liquidity) { unimplemented!() }
    #[verifier::external_body] fn div_up(self, rhs: T) -> (r: Liquidity) { unimplemented!() }
}
impl OthersSameType for Liquidity {
    #[verifier::external_body] fn sub_abs(self, rhs: Self) -> (r: Liquidity) { unimplemented!() }
}
impl<T: UVal> Factories<T> for Liquidity where U256: UintCast<T> {
    #[verifier::external_body] fn from_integer(integer: T) -> (r: Liquidity) { unimplemented!() }
    #[verifier::external_body] fn from_scale(integer: T, scale: u8) -> (r: Liquidity) { unimplemented!() }
    #[verifier::external_body] fn checked_from_scale(integer: T, scale: u8) -> (r: Result<Liquidity, VString>) { unimplemented!() }
    #[verifier::external_body] fn from_scale_up(integer: T, scale: u8) -> (r: Liquidity) { unimplemented!() }
}
impl FactoriesUnderlying for Liquidity {
    #[verifier::external_body] fn from_integer_underlying(integer: U256) -> (r: Liquidity) { unimplemented!() }
    #[verifier::external_body] fn from_scale_underlying(integer: U256, scale: u8) -> (r: Liquidity) { unimplemented!() }
    #[verifier::external_body] fn checked_from_scale_underlying(integer: U256, scale: u8) -> (r: Result<Liquidity, VString>) { unimplemented!() }
    #[verifier::external_body] fn from_scale_up_underlying(integer: U256, scale: u8) -> (r: Liquidity) { unimplemented!() }
}
impl<T: Decimal> BetweenDecimals<T> for Liquidity where Self: Factories<T::U> {
    #[verifier::external_body] fn from_decimal(other: T) -> (r: Liquidity) { unimplemented!() }
    #[verifier::external_body] fn checked_from_decimal(other: T) -> (r: Result<Liquidity, VString>) { unimplemented!() }
    #[verifier::external_body] fn from_decimal_up(other: T) -> (r: Liquidity) { unimplemented!() }
}
impl<T: UVal> FactoriesToValue<T, U512> for Liquidity where U512: UintCast<T> {
    #[verifier::external_body] fn checked_from_scale_to_value(val: T, scale: u8) -> (r: Result<U512, VString>) { unimplemented!() }
}
impl<T: Decimal, B: UVal> BetweenDecimalsToValue<T, B> for Liquidity where Self: FactoriesToValue<T::U, B> {
    #[verifier::external_body] fn checked_from_decimal_to_value(other: T) -> (r: Result<B, VString>) { unimplemented!() }
}
impl CheckedOps for Liquidity {
    #[verifier::external_body] fn checked_add(self, rhs: Self) -> (r: Result<Liquidity, VString>) { unimplemented!() }
    #[verifier::external_body] fn checked_sub(self, rhs: Self) -> (r: Result<Liquidity, VString>) { unimplemented!() }
    #[verifier::external_body] fn checked_div(self, rhs: Self) -> (r: Result<Liquidity, VString>) { unimplemented!() }
}
impl Liquidity { #[verifier::external_body] pub fn is_zero(self) -> (r: bool) ensures r == (self.d() == 0) { unimplemented!() } }
