#[derive(Clone, Copy)]
pub struct SqrtPrice(pub u128);
impl SqrtPrice { pub open spec fn d(&self) -> int { self.0 as int }
    #[verifier::external_body] pub fn default() -> (r: SqrtPrice) ensures r.d() == 0 { unimplemented!() } }
pub proof fn sqrtprice_ext(a: SqrtPrice, b: SqrtPrice) requires a.d() == b.d() ensures a == b {  }
impl PartialEq for SqrtPrice { #[verifier::external_body] fn eq(&self, o: &SqrtPrice) -> (r: bool) ensures r == (self.d() == o.d()), r == (*self == *o) { unimplemented!() } }
impl Eq for SqrtPrice {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for SqrtPrice { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &SqrtPrice) -> bool { *self == *o } }
impl PartialOrd for SqrtPrice { #[verifier::external_body] fn partial_cmp(&self, o: &SqrtPrice) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for SqrtPrice { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &SqrtPrice) -> Option<core::cmp::Ordering> { if self.d() < o.d() { Some(core::cmp::Ordering::Less) } else if self.d() > o.d() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl Conversion for SqrtPrice {}
impl vstd::std_specs::ops::AddSpecImpl<SqrtPrice> for SqrtPrice { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: SqrtPrice) -> bool { true } open spec fn add_spec(self, o: SqrtPrice) -> SqrtPrice { arbitrary() } }
impl vstd::std_specs::ops::SubSpecImpl<SqrtPrice> for SqrtPrice { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: SqrtPrice) -> bool { true } open spec fn sub_spec(self, o: SqrtPrice) -> SqrtPrice { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::MulSpecImpl<T> for SqrtPrice where T::U: VTryInto<u128> { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: T) -> bool { true } open spec fn mul_spec(self, o: T) -> SqrtPrice { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::DivSpecImpl<T> for SqrtPrice where T::U: VTryInto<u128> { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: T) -> bool { true } open spec fn div_spec(self, o: T) -> SqrtPrice { arbitrary() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<SqrtPrice> for SqrtPrice { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: SqrtPrice) -> bool { true } open spec fn add_assign_spec(&self, o: SqrtPrice) -> &SqrtPrice { arbitrary() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<SqrtPrice> for SqrtPrice { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, o: SqrtPrice) -> bool { true } open spec fn sub_assign_spec(&self, o: SqrtPrice) -> &SqrtPrice { arbitrary() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<SqrtPrice> for SqrtPrice { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, o: SqrtPrice) -> bool { true } open spec fn mul_assign_spec(&self, o: SqrtPrice) -> &SqrtPrice { arbitrary() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<SqrtPrice> for SqrtPrice { open spec fn obeys_div_assign_spec() -> bool { false } open spec fn div_assign_req(&self, o: SqrtPrice) -> bool { true } open spec fn div_assign_spec(&self, o: SqrtPrice) -> &SqrtPrice { arbitrary() } }
//@traitimpl expanded:math Decimal SqrtPrice skip=here
    open spec fn dv(&self) -> int { self.d() }
    open spec fn sone() -> int { 1000000000000000000000000 }
    open spec fn sscale() -> int { 24 }
    open spec fn dmax() -> int { ((18446744073709551616 * 18446744073709551616) - 1) }
//@m checked_one
//@pre
        proof { lemma_p10_24(); }
//@end
//@traitimpl expanded:math Add SqrtPrice 

//@m add
    ensures r.d() == self.d() + rhs.d()
//@end
//@traitimpl expanded:math Sub SqrtPrice 

//@m sub
    ensures r.d() == self.d() - rhs.d()
//@end
//@traitimpl expanded:math Mul SqrtPrice 

//@m mul
    ensures r.d() == self.d() * rhs.dv() / T::sone()
//@end
//@traitimpl expanded:math Div SqrtPrice 

//@m div
    ensures rhs.dv() != 0, r.d() == self.d() * T::sone() / rhs.dv()
//@end
//@traitimpl expanded:math AddAssign SqrtPrice 

//@m add_assign
    ensures final(self).d() == old(self).d() + rhs.d()
//@end
//@traitimpl expanded:math SubAssign SqrtPrice 

//@m sub_assign
    ensures final(self).d() == old(self).d() - rhs.d()
//@end
//@traitimpl expanded:math MulAssign SqrtPrice 

//@m mul_assign
    ensures final(self).d() == muldiv(old(self).d(), rhs.d(), Self::sone())
//@pre
    proof { reveal(muldiv); }
//@end
//@traitimpl expanded:math DivAssign SqrtPrice 

//@m div_assign
    ensures rhs.d() != 0, final(self).d() == old(self).d() * Self::sone() / rhs.d()
//@end
//@traitimpl expanded:math BigOps SqrtPrice 
    open spec fn bmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))) - 1) }
//@end
//@traitimpl expanded:math ByNumber SqrtPrice 
    open spec fn nmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))) - 1) }
//@end
//@traitimpl expanded:math ToValue SqrtPrice 

//@end
//@traitimpl expanded:math Others SqrtPrice 

//@end
//@traitimpl expanded:math OthersSameType SqrtPrice 

//@end
//@traitimpl expanded:math Factories SqrtPrice gen=*:UVal

//@end
//@traitimpl expanded:math FactoriesUnderlying SqrtPrice skip=U

//@end
//@traitimpl expanded:math BetweenDecimals SqrtPrice 

//@end
//@traitimpl expanded:math FactoriesToValue SqrtPrice gen=*:UVal

//@end
//@traitimpl expanded:math BetweenDecimalsToValue SqrtPrice gen=*:UVal

//@end
//@traitimpl expanded:math CheckedOps SqrtPrice 

//@end
//@fn expanded:math SqrtPrice::is_zero -> r
    ensures r == (self.d() == 0)
//@end
