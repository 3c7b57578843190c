#[derive(Clone, Copy)]
pub struct FeeGrowth(pub u128);
impl FeeGrowth { pub open spec fn d(&self) -> int { self.0 as int }
    #[verifier::external_body] pub fn default() -> (r: FeeGrowth) ensures r.d() == 0 { unimplemented!() } }
pub proof fn feegrowth_ext(a: FeeGrowth, b: FeeGrowth) requires a.d() == b.d() ensures a == b {  }
impl PartialEq for FeeGrowth { #[verifier::external_body] fn eq(&self, o: &FeeGrowth) -> (r: bool) ensures r == (self.d() == o.d()), r == (*self == *o) { unimplemented!() } }
impl Eq for FeeGrowth {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for FeeGrowth { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &FeeGrowth) -> bool { *self == *o } }
impl PartialOrd for FeeGrowth { #[verifier::external_body] fn partial_cmp(&self, o: &FeeGrowth) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for FeeGrowth { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &FeeGrowth) -> Option<core::cmp::Ordering> { if self.d() < o.d() { Some(core::cmp::Ordering::Less) } else if self.d() > o.d() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl Conversion for FeeGrowth {}
impl vstd::std_specs::ops::AddSpecImpl<FeeGrowth> for FeeGrowth { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: FeeGrowth) -> bool { true } open spec fn add_spec(self, o: FeeGrowth) -> FeeGrowth { arbitrary() } }
impl vstd::std_specs::ops::SubSpecImpl<FeeGrowth> for FeeGrowth { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: FeeGrowth) -> bool { true } open spec fn sub_spec(self, o: FeeGrowth) -> FeeGrowth { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::MulSpecImpl<T> for FeeGrowth where T::U: VTryInto<u128> { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: T) -> bool { true } open spec fn mul_spec(self, o: T) -> FeeGrowth { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::DivSpecImpl<T> for FeeGrowth where T::U: VTryInto<u128> { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: T) -> bool { true } open spec fn div_spec(self, o: T) -> FeeGrowth { arbitrary() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<FeeGrowth> for FeeGrowth { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: FeeGrowth) -> bool { true } open spec fn add_assign_spec(&self, o: FeeGrowth) -> &FeeGrowth { arbitrary() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<FeeGrowth> for FeeGrowth { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, o: FeeGrowth) -> bool { true } open spec fn sub_assign_spec(&self, o: FeeGrowth) -> &FeeGrowth { arbitrary() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<FeeGrowth> for FeeGrowth { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, o: FeeGrowth) -> bool { true } open spec fn mul_assign_spec(&self, o: FeeGrowth) -> &FeeGrowth { arbitrary() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<FeeGrowth> for FeeGrowth { open spec fn obeys_div_assign_spec() -> bool { false } open spec fn div_assign_req(&self, o: FeeGrowth) -> bool { true } open spec fn div_assign_spec(&self, o: FeeGrowth) -> &FeeGrowth { arbitrary() } }
//@traitimpl expanded:math Decimal FeeGrowth skip=here
    open spec fn dv(&self) -> int { self.d() }
    open spec fn sone() -> int { 10000000000000000000000000000 }
    open spec fn sscale() -> int { 28 }
    open spec fn dmax() -> int { ((18446744073709551616 * 18446744073709551616) - 1) }
//@m checked_one
//@pre
        proof { lemma_p10_28(); }
//@end
//@traitimpl expanded:math Add FeeGrowth 

//@m add
    ensures r.d() == self.d() + rhs.d()
//@end
//@traitimpl expanded:math Sub FeeGrowth 

//@m sub
    ensures r.d() == self.d() - rhs.d()
//@end
//@traitimpl expanded:math Mul FeeGrowth 

//@m mul
    ensures r.d() == self.d() * rhs.dv() / T::sone()
//@end
//@traitimpl expanded:math Div FeeGrowth 

//@m div
    ensures rhs.dv() != 0, r.d() == self.d() * T::sone() / rhs.dv()
//@end
//@traitimpl expanded:math AddAssign FeeGrowth 

//@m add_assign
    ensures final(self).d() == old(self).d() + rhs.d()
//@end
//@traitimpl expanded:math SubAssign FeeGrowth 

//@m sub_assign
    ensures final(self).d() == old(self).d() - rhs.d()
//@end
//@traitimpl expanded:math MulAssign FeeGrowth 

//@m mul_assign
    ensures final(self).d() == muldiv(old(self).d(), rhs.d(), Self::sone())
//@pre
    proof { reveal(muldiv); }
//@end
//@traitimpl expanded:math DivAssign FeeGrowth 

//@m div_assign
    ensures rhs.d() != 0, final(self).d() == old(self).d() * Self::sone() / rhs.d()
//@end
//@traitimpl expanded:math BigOps FeeGrowth 
    open spec fn bmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) }
//@end
//@traitimpl expanded:math ByNumber FeeGrowth 
    open spec fn nmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) }
//@end
//@traitimpl expanded:math ToValue FeeGrowth 

//@end
//@traitimpl expanded:math Others FeeGrowth 

//@end
//@traitimpl expanded:math OthersSameType FeeGrowth 

//@end
//@traitimpl expanded:math Factories FeeGrowth gen=*:UVal

//@end
//@traitimpl expanded:math FactoriesUnderlying FeeGrowth skip=U

//@end
//@traitimpl expanded:math BetweenDecimals FeeGrowth 

//@end
//@traitimpl expanded:math FactoriesToValue FeeGrowth gen=*:UVal

//@end
//@traitimpl expanded:math BetweenDecimalsToValue FeeGrowth gen=*:UVal

//@end
//@traitimpl expanded:math CheckedOps FeeGrowth 

//@end
//@fn expanded:math FeeGrowth::is_zero -> r
    ensures r == (self.d() == 0)
//@end
