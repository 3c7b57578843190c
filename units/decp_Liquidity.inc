#[derive(Clone, Copy)]
pub struct Liquidity(pub U256);
impl Liquidity { pub open spec fn d(&self) -> int { self.0.uv() }
    #[verifier::external_body] pub fn default() -> (r: Liquidity) ensures r.d() == 0 { unimplemented!() } }
pub proof fn liquidity_ext(a: Liquidity, b: Liquidity) requires a.d() == b.d() ensures a == b { 
    reveal(u256_val); let (x, y) = (a.0.0, b.0.0); let w = 18446744073709551616int;
    l_digit(x[0] as int, y[0] as int, (x[1] as int) + w * ((x[2] as int) + w * (x[3] as int)), (y[1] as int) + w * ((y[2] as int) + w * (y[3] as int)));
    l_digit(x[1] as int, y[1] as int, (x[2] as int) + w * (x[3] as int), (y[2] as int) + w * (y[3] as int)); l_digit(x[2] as int, y[2] as int, x[3] as int, y[3] as int);
    assert(x =~= y);
 }
pub proof fn l_digit(x: int, y: int, p: int, q: int) requires 0 <= x <= 18446744073709551615, 0 <= y <= 18446744073709551615, x + 18446744073709551616int * p == y + 18446744073709551616int * q ensures x == y, p == q { }
impl PartialEq for Liquidity { #[verifier::external_body] fn eq(&self, o: &Liquidity) -> (r: bool) ensures r == (self.d() == o.d()), r == (*self == *o) { unimplemented!() } }
impl Eq for Liquidity {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Liquidity { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Liquidity) -> bool { *self == *o } }
impl PartialOrd for Liquidity { #[verifier::external_body] fn partial_cmp(&self, o: &Liquidity) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Liquidity { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Liquidity) -> Option<core::cmp::Ordering> { if self.d() < o.d() { Some(core::cmp::Ordering::Less) } else if self.d() > o.d() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl Conversion for Liquidity {}
impl vstd::std_specs::ops::AddSpecImpl<Liquidity> for Liquidity { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: Liquidity) -> bool { true } open spec fn add_spec(self, o: Liquidity) -> Liquidity { arbitrary() } }
impl vstd::std_specs::ops::SubSpecImpl<Liquidity> for Liquidity { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: Liquidity) -> bool { true } open spec fn sub_spec(self, o: Liquidity) -> Liquidity { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::MulSpecImpl<T> for Liquidity where T::U: VTryInto<U256> { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: T) -> bool { true } open spec fn mul_spec(self, o: T) -> Liquidity { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::DivSpecImpl<T> for Liquidity where T::U: VTryInto<U256> { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: T) -> bool { true } open spec fn div_spec(self, o: T) -> Liquidity { arbitrary() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<Liquidity> for Liquidity { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: Liquidity) -> bool { true } open spec fn add_assign_spec(&self, o: Liquidity) -> &Liquidity { arbitrary() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<Liquidity> for Liquidity { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, o: Liquidity) -> bool { true } open spec fn sub_assign_spec(&self, o: Liquidity) -> &Liquidity { arbitrary() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<Liquidity> for Liquidity { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, o: Liquidity) -> bool { true } open spec fn mul_assign_spec(&self, o: Liquidity) -> &Liquidity { arbitrary() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<Liquidity> for Liquidity { open spec fn obeys_div_assign_spec() -> bool { false } open spec fn div_assign_req(&self, o: Liquidity) -> bool { true } open spec fn div_assign_spec(&self, o: Liquidity) -> &Liquidity { arbitrary() } }
//@traitimpl expanded:math Decimal Liquidity skip=here
    open spec fn dv(&self) -> int { self.d() }
    open spec fn sone() -> int { 100000 }
    open spec fn sscale() -> int { 5 }
    open spec fn dmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) }
//@m checked_one
//@pre
        proof { lemma_p10_5(); }
//@end
//@traitimpl expanded:math Add Liquidity 

//@m add
    ensures r.d() == self.d() + rhs.d()
//@end
//@traitimpl expanded:math Sub Liquidity 

//@m sub
    ensures r.d() == self.d() - rhs.d()
//@end
//@traitimpl expanded:math Mul Liquidity 

//@m mul
    ensures r.d() == self.d() * rhs.dv() / T::sone()
//@end
//@traitimpl expanded:math Div Liquidity 

//@m div
    ensures rhs.dv() != 0, r.d() == self.d() * T::sone() / rhs.dv()
//@end
//@traitimpl expanded:math AddAssign Liquidity 

//@m add_assign
    ensures final(self).d() == old(self).d() + rhs.d()
//@end
//@traitimpl expanded:math SubAssign Liquidity 

//@m sub_assign
    ensures final(self).d() == old(self).d() - rhs.d()
//@end
//@traitimpl expanded:math MulAssign Liquidity 

//@m mul_assign
    ensures final(self).d() == muldiv(old(self).d(), rhs.d(), Self::sone())
//@pre
    proof { reveal(muldiv); }
//@end
//@traitimpl expanded:math DivAssign Liquidity 

//@m div_assign
    ensures rhs.d() != 0, final(self).d() == old(self).d() * Self::sone() / rhs.d()
//@end
//@traitimpl expanded:math BigOps Liquidity 
    open spec fn bmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))))) - 1) }
//@end
//@traitimpl expanded:math ByNumber Liquidity 
    open spec fn nmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))))) - 1) }
//@end
//@traitimpl expanded:math ToValue Liquidity 

//@end
//@traitimpl expanded:math Others Liquidity 

//@end
//@traitimpl expanded:math OthersSameType Liquidity 

//@end
//@traitimpl expanded:math Factories Liquidity gen=*:UVal

//@end
//@traitimpl expanded:math FactoriesUnderlying Liquidity skip=U

//@end
//@traitimpl expanded:math BetweenDecimals Liquidity 

//@end
//@traitimpl expanded:math FactoriesToValue Liquidity gen=*:UVal

//@end
//@traitimpl expanded:math BetweenDecimalsToValue Liquidity gen=*:UVal

//@end
//@traitimpl expanded:math CheckedOps Liquidity 

//@end
//@fn expanded:math Liquidity::is_zero -> r
    ensures r == (self.d() == 0)
//@end
