#[derive(Clone, Copy)]
pub struct Percentage(pub u128);
impl Percentage { pub open spec fn d(&self) -> int { self.0 as int }
    #[verifier::external_body] pub fn default() -> (r: Percentage) ensures r.d() == 0 { unimplemented!() } }
pub proof fn percentage_ext(a: Percentage, b: Percentage) requires a.d() == b.d() ensures a == b {  }
impl PartialEq for Percentage { #[verifier::external_body] fn eq(&self, o: &Percentage) -> (r: bool) ensures r == (self.d() == o.d()), r == (*self == *o) { unimplemented!() } }
impl Eq for Percentage {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Percentage { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Percentage) -> bool { *self == *o } }
impl PartialOrd for Percentage { #[verifier::external_body] fn partial_cmp(&self, o: &Percentage) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Percentage { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Percentage) -> Option<core::cmp::Ordering> { if self.d() < o.d() { Some(core::cmp::Ordering::Less) } else if self.d() > o.d() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl Conversion for Percentage {}
impl vstd::std_specs::ops::AddSpecImpl<Percentage> for Percentage { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: Percentage) -> bool { true } open spec fn add_spec(self, o: Percentage) -> Percentage { arbitrary() } }
impl vstd::std_specs::ops::SubSpecImpl<Percentage> for Percentage { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: Percentage) -> bool { true } open spec fn sub_spec(self, o: Percentage) -> Percentage { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::MulSpecImpl<T> for Percentage where T::U: VTryInto<u128> { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: T) -> bool { true } open spec fn mul_spec(self, o: T) -> Percentage { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::DivSpecImpl<T> for Percentage where T::U: VTryInto<u128> { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: T) -> bool { true } open spec fn div_spec(self, o: T) -> Percentage { arbitrary() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<Percentage> for Percentage { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: Percentage) -> bool { true } open spec fn add_assign_spec(&self, o: Percentage) -> &Percentage { arbitrary() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<Percentage> for Percentage { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, o: Percentage) -> bool { true } open spec fn sub_assign_spec(&self, o: Percentage) -> &Percentage { arbitrary() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<Percentage> for Percentage { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, o: Percentage) -> bool { true } open spec fn mul_assign_spec(&self, o: Percentage) -> &Percentage { arbitrary() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<Percentage> for Percentage { open spec fn obeys_div_assign_spec() -> bool { false } open spec fn div_assign_req(&self, o: Percentage) -> bool { true } open spec fn div_assign_spec(&self, o: Percentage) -> &Percentage { arbitrary() } }
//@traitimpl expanded:math Decimal Percentage skip=here
    open spec fn dv(&self) -> int { self.d() }
    open spec fn sone() -> int { 1000000000000 }
    open spec fn sscale() -> int { 12 }
    open spec fn dmax() -> int { ((18446744073709551616 * 18446744073709551616) - 1) }
//@m checked_one
//@pre
        proof { lemma_p10_12(); }
//@end
//@traitimpl expanded:math Add Percentage 

//@m add
    ensures r.d() == self.d() + rhs.d()
//@end
//@traitimpl expanded:math Sub Percentage 

//@m sub
    ensures r.d() == self.d() - rhs.d()
//@end
//@traitimpl expanded:math Mul Percentage 

//@m mul
    ensures r.d() == self.d() * rhs.dv() / T::sone()
//@end
//@traitimpl expanded:math Div Percentage 

//@m div
    ensures rhs.dv() != 0, r.d() == self.d() * T::sone() / rhs.dv()
//@end
//@traitimpl expanded:math AddAssign Percentage 

//@m add_assign
    ensures final(self).d() == old(self).d() + rhs.d()
//@end
//@traitimpl expanded:math SubAssign Percentage 

//@m sub_assign
    ensures final(self).d() == old(self).d() - rhs.d()
//@end
//@traitimpl expanded:math MulAssign Percentage 

//@m mul_assign
    ensures final(self).d() == muldiv(old(self).d(), rhs.d(), Self::sone())
//@pre
    proof { reveal(muldiv); }
//@end
//@traitimpl expanded:math DivAssign Percentage 

//@m div_assign
    ensures rhs.d() != 0, final(self).d() == old(self).d() * Self::sone() / rhs.d()
//@end
//@traitimpl expanded:math BigOps Percentage 
    open spec fn bmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) }
//@end
//@traitimpl expanded:math ByNumber Percentage 
    open spec fn nmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) }
//@end
//@traitimpl expanded:math ToValue Percentage 

//@end
//@traitimpl expanded:math Others Percentage 

//@end
//@traitimpl expanded:math OthersSameType Percentage 

//@end
//@traitimpl expanded:math Factories Percentage gen=*:UVal

//@end
//@traitimpl expanded:math FactoriesUnderlying Percentage skip=U

//@end
//@traitimpl expanded:math BetweenDecimals Percentage 

//@end
//@traitimpl expanded:math FactoriesToValue Percentage gen=*:UVal

//@end
//@traitimpl expanded:math BetweenDecimalsToValue Percentage gen=*:UVal

//@end
//@traitimpl expanded:math CheckedOps Percentage 

//@end
//@fn expanded:math Percentage::is_zero -> r
    ensures r == (self.d() == 0)
//@end
