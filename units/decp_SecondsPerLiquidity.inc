#[derive(Clone, Copy)]
pub struct SecondsPerLiquidity(pub u128);
impl SecondsPerLiquidity { pub open spec fn d(&self) -> int { self.0 as int }
    #[verifier::external_body] pub fn default() -> (r: SecondsPerLiquidity) ensures r.d() == 0 { unimplemented!() } }
pub proof fn secondsperliquidity_ext(a: SecondsPerLiquidity, b: SecondsPerLiquidity) requires a.d() == b.d() ensures a == b {  }
impl PartialEq for SecondsPerLiquidity { #[verifier::external_body] fn eq(&self, o: &SecondsPerLiquidity) -> (r: bool) ensures r == (self.d() == o.d()), r == (*self == *o) { unimplemented!() } }
impl Eq for SecondsPerLiquidity {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for SecondsPerLiquidity { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &SecondsPerLiquidity) -> bool { *self == *o } }
impl PartialOrd for SecondsPerLiquidity { #[verifier::external_body] fn partial_cmp(&self, o: &SecondsPerLiquidity) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for SecondsPerLiquidity { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &SecondsPerLiquidity) -> Option<core::cmp::Ordering> { if self.d() < o.d() { Some(core::cmp::Ordering::Less) } else if self.d() > o.d() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl Conversion for SecondsPerLiquidity {}
impl vstd::std_specs::ops::AddSpecImpl<SecondsPerLiquidity> for SecondsPerLiquidity { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: SecondsPerLiquidity) -> bool { true } open spec fn add_spec(self, o: SecondsPerLiquidity) -> SecondsPerLiquidity { arbitrary() } }
impl vstd::std_specs::ops::SubSpecImpl<SecondsPerLiquidity> for SecondsPerLiquidity { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: SecondsPerLiquidity) -> bool { true } open spec fn sub_spec(self, o: SecondsPerLiquidity) -> SecondsPerLiquidity { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::MulSpecImpl<T> for SecondsPerLiquidity where T::U: VTryInto<u128> { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: T) -> bool { true } open spec fn mul_spec(self, o: T) -> SecondsPerLiquidity { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::DivSpecImpl<T> for SecondsPerLiquidity where T::U: VTryInto<u128> { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: T) -> bool { true } open spec fn div_spec(self, o: T) -> SecondsPerLiquidity { arbitrary() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<SecondsPerLiquidity> for SecondsPerLiquidity { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: SecondsPerLiquidity) -> bool { true } open spec fn add_assign_spec(&self, o: SecondsPerLiquidity) -> &SecondsPerLiquidity { arbitrary() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<SecondsPerLiquidity> for SecondsPerLiquidity { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, o: SecondsPerLiquidity) -> bool { true } open spec fn sub_assign_spec(&self, o: SecondsPerLiquidity) -> &SecondsPerLiquidity { arbitrary() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<SecondsPerLiquidity> for SecondsPerLiquidity { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, o: SecondsPerLiquidity) -> bool { true } open spec fn mul_assign_spec(&self, o: SecondsPerLiquidity) -> &SecondsPerLiquidity { arbitrary() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<SecondsPerLiquidity> for SecondsPerLiquidity { open spec fn obeys_div_assign_spec() -> bool { false } open spec fn div_assign_req(&self, o: SecondsPerLiquidity) -> bool { true } open spec fn div_assign_spec(&self, o: SecondsPerLiquidity) -> &SecondsPerLiquidity { arbitrary() } }
//@traitimpl expanded:math Decimal SecondsPerLiquidity skip=here
    open spec fn dv(&self) -> int { self.d() }
    open spec fn sone() -> int { 10000000000000000000000000 }
    open spec fn sscale() -> int { 25 }
    open spec fn dmax() -> int { ((18446744073709551616 * 18446744073709551616) - 1) }
//@m checked_one
//@pre
        proof { lemma_p10_25(); }
//@end
//@traitimpl expanded:math Add SecondsPerLiquidity 

//@m add
    ensures r.d() == self.d() + rhs.d()
//@end
//@traitimpl expanded:math Sub SecondsPerLiquidity 

//@m sub
    ensures r.d() == self.d() - rhs.d()
//@end
//@traitimpl expanded:math Mul SecondsPerLiquidity 

//@m mul
    ensures r.d() == self.d() * rhs.dv() / T::sone()
//@end
//@traitimpl expanded:math Div SecondsPerLiquidity 

//@m div
    ensures rhs.dv() != 0, r.d() == self.d() * T::sone() / rhs.dv()
//@end
//@traitimpl expanded:math AddAssign SecondsPerLiquidity 

//@m add_assign
    ensures final(self).d() == old(self).d() + rhs.d()
//@end
//@traitimpl expanded:math SubAssign SecondsPerLiquidity 

//@m sub_assign
    ensures final(self).d() == old(self).d() - rhs.d()
//@end
//@traitimpl expanded:math MulAssign SecondsPerLiquidity 

//@m mul_assign
    ensures final(self).d() == muldiv(old(self).d(), rhs.d(), Self::sone())
//@pre
    proof { reveal(muldiv); }
//@end
//@traitimpl expanded:math DivAssign SecondsPerLiquidity 

//@m div_assign
    ensures rhs.d() != 0, final(self).d() == old(self).d() * Self::sone() / rhs.d()
//@end
//@traitimpl expanded:math BigOps SecondsPerLiquidity 
    open spec fn bmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) }
//@end
//@traitimpl expanded:math ByNumber SecondsPerLiquidity 
    open spec fn nmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) }
//@end
//@traitimpl expanded:math ToValue SecondsPerLiquidity 

//@end
//@traitimpl expanded:math Others SecondsPerLiquidity 

//@end
//@traitimpl expanded:math OthersSameType SecondsPerLiquidity 

//@end
//@traitimpl expanded:math Factories SecondsPerLiquidity gen=*:UVal

//@end
//@traitimpl expanded:math FactoriesUnderlying SecondsPerLiquidity skip=U

//@end
//@traitimpl expanded:math BetweenDecimals SecondsPerLiquidity 

//@end
//@traitimpl expanded:math FactoriesToValue SecondsPerLiquidity gen=*:UVal

//@end
//@traitimpl expanded:math BetweenDecimalsToValue SecondsPerLiquidity gen=*:UVal

//@end
//@traitimpl expanded:math CheckedOps SecondsPerLiquidity 

//@end
//@fn expanded:math SecondsPerLiquidity::is_zero -> r
    ensures r == (self.d() == 0)
//@end
