#[derive(Clone, Copy)]
pub struct FixedPoint(pub u128);
impl FixedPoint { pub open spec fn d(&self) -> int { self.0 as int }
    #[verifier::external_body] pub fn default() -> (r: FixedPoint) ensures r.d() == 0 { unimplemented!() } }
pub proof fn fixedpoint_ext(a: FixedPoint, b: FixedPoint) requires a.d() == b.d() ensures a == b {  }
impl PartialEq for FixedPoint { #[verifier::external_body] fn eq(&self, o: &FixedPoint) -> (r: bool) ensures r == (self.d() == o.d()), r == (*self == *o) { unimplemented!() } }
impl Eq for FixedPoint {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for FixedPoint { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &FixedPoint) -> bool { *self == *o } }
impl PartialOrd for FixedPoint { #[verifier::external_body] fn partial_cmp(&self, o: &FixedPoint) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for FixedPoint { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &FixedPoint) -> Option<core::cmp::Ordering> { if self.d() < o.d() { Some(core::cmp::Ordering::Less) } else if self.d() > o.d() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl Conversion for FixedPoint {}
impl vstd::std_specs::ops::AddSpecImpl<FixedPoint> for FixedPoint { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: FixedPoint) -> bool { true } open spec fn add_spec(self, o: FixedPoint) -> FixedPoint { arbitrary() } }
impl vstd::std_specs::ops::SubSpecImpl<FixedPoint> for FixedPoint { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: FixedPoint) -> bool { true } open spec fn sub_spec(self, o: FixedPoint) -> FixedPoint { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::MulSpecImpl<T> for FixedPoint where T::U: VTryInto<u128> { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: T) -> bool { true } open spec fn mul_spec(self, o: T) -> FixedPoint { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::DivSpecImpl<T> for FixedPoint where T::U: VTryInto<u128> { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: T) -> bool { true } open spec fn div_spec(self, o: T) -> FixedPoint { arbitrary() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<FixedPoint> for FixedPoint { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: FixedPoint) -> bool { true } open spec fn add_assign_spec(&self, o: FixedPoint) -> &FixedPoint { arbitrary() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<FixedPoint> for FixedPoint { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, o: FixedPoint) -> bool { true } open spec fn sub_assign_spec(&self, o: FixedPoint) -> &FixedPoint { arbitrary() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<FixedPoint> for FixedPoint { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, o: FixedPoint) -> bool { true } open spec fn mul_assign_spec(&self, o: FixedPoint) -> &FixedPoint { arbitrary() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<FixedPoint> for FixedPoint { open spec fn obeys_div_assign_spec() -> bool { false } open spec fn div_assign_req(&self, o: FixedPoint) -> bool { true } open spec fn div_assign_spec(&self, o: FixedPoint) -> &FixedPoint { arbitrary() } }
//@traitimpl expanded:math Decimal FixedPoint skip=here
    open spec fn dv(&self) -> int { self.d() }
    open spec fn sone() -> int { 1000000000000 }
    open spec fn sscale() -> int { 12 }
    open spec fn dmax() -> int { ((18446744073709551616 * 18446744073709551616) - 1) }
//@m checked_one
//@pre
        proof { lemma_p10_12(); }
//@end
//@traitimpl expanded:math Add FixedPoint 

//@m add
    ensures r.d() == self.d() + rhs.d()
//@end
//@traitimpl expanded:math Sub FixedPoint 

//@m sub
    ensures r.d() == self.d() - rhs.d()
//@end
//@traitimpl expanded:math Mul FixedPoint 

//@m mul
    ensures r.d() == self.d() * rhs.dv() / T::sone()
//@end
//@traitimpl expanded:math Div FixedPoint 

//@m div
    ensures rhs.dv() != 0, r.d() == self.d() * T::sone() / rhs.dv()
//@end
//@traitimpl expanded:math AddAssign FixedPoint 

//@m add_assign
    ensures final(self).d() == old(self).d() + rhs.d()
//@end
//@traitimpl expanded:math SubAssign FixedPoint 

//@m sub_assign
    ensures final(self).d() == old(self).d() - rhs.d()
//@end
//@traitimpl expanded:math MulAssign FixedPoint 

//@m mul_assign
    ensures final(self).d() == muldiv(old(self).d(), rhs.d(), Self::sone())
//@pre
    proof { reveal(muldiv); }
//@end
//@traitimpl expanded:math DivAssign FixedPoint 

//@m div_assign
    ensures rhs.d() != 0, final(self).d() == old(self).d() * Self::sone() / rhs.d()
//@end
//@traitimpl expanded:math BigOps FixedPoint 
    open spec fn bmax() -> int { ((18446744073709551616 * (18446744073709551616 * 18446744073709551616)) - 1) }
//@end
//@traitimpl expanded:math ByNumber FixedPoint 
    open spec fn nmax() -> int { ((18446744073709551616 * (18446744073709551616 * 18446744073709551616)) - 1) }
//@end
//@traitimpl expanded:math ToValue FixedPoint 

//@end
//@traitimpl expanded:math Others FixedPoint 

//@end
//@traitimpl expanded:math OthersSameType FixedPoint 

//@end
//@traitimpl expanded:math Factories FixedPoint gen=*:UVal

//@end
//@traitimpl expanded:math FactoriesUnderlying FixedPoint skip=U

//@end
//@traitimpl expanded:math BetweenDecimals FixedPoint 

//@end
//@traitimpl expanded:math FactoriesToValue FixedPoint gen=*:UVal

//@end
//@traitimpl expanded:math BetweenDecimalsToValue FixedPoint gen=*:UVal

//@end
//@traitimpl expanded:math CheckedOps FixedPoint 

//@end
//@fn expanded:math FixedPoint::is_zero -> r
    ensures r == (self.d() == 0)
//@end
