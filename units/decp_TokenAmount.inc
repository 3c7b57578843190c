#[derive(Clone, Copy)]
pub struct TokenAmount(pub U256);
impl TokenAmount { pub open spec fn d(&self) -> int { self.0.uv() }
    #[verifier::external_body] pub fn default() -> (r: TokenAmount) ensures r.d() == 0 { unimplemented!() } }
pub proof fn tokenamount_ext(a: TokenAmount, b: TokenAmount) requires a.d() == b.d() ensures a == b {
    reveal(u256_val); let (x, y) = (a.0.0, b.0.0); let w = 18446744073709551616int;
    l_digit(x[0] as int, y[0] as int, (x[1] as int) + w * ((x[2] as int) + w * (x[3] as int)), (y[1] as int) + w * ((y[2] as int) + w * (y[3] as int)));
    l_digit(x[1] as int, y[1] as int, (x[2] as int) + w * (x[3] as int), (y[2] as int) + w * (y[3] as int)); l_digit(x[2] as int, y[2] as int, x[3] as int, y[3] as int);
    assert(x =~= y);
}
impl PartialEq for TokenAmount { #[verifier::external_body] fn eq(&self, o: &TokenAmount) -> (r: bool) ensures r == (self.d() == o.d()), r == (*self == *o) { unimplemented!() } }
impl Eq for TokenAmount {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for TokenAmount { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &TokenAmount) -> bool { *self == *o } }
impl PartialOrd for TokenAmount { #[verifier::external_body] fn partial_cmp(&self, o: &TokenAmount) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for TokenAmount { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &TokenAmount) -> Option<core::cmp::Ordering> { if self.d() < o.d() { Some(core::cmp::Ordering::Less) } else if self.d() > o.d() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl Conversion for TokenAmount {}
impl vstd::std_specs::ops::AddSpecImpl<TokenAmount> for TokenAmount { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: TokenAmount) -> bool { true } open spec fn add_spec(self, o: TokenAmount) -> TokenAmount { arbitrary() } }
impl vstd::std_specs::ops::SubSpecImpl<TokenAmount> for TokenAmount { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: TokenAmount) -> bool { true } open spec fn sub_spec(self, o: TokenAmount) -> TokenAmount { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::MulSpecImpl<T> for TokenAmount where T::U: VTryInto<U256> { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: T) -> bool { true } open spec fn mul_spec(self, o: T) -> TokenAmount { arbitrary() } }
impl<T: Decimal> vstd::std_specs::ops::DivSpecImpl<T> for TokenAmount where T::U: VTryInto<U256> { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: T) -> bool { true } open spec fn div_spec(self, o: T) -> TokenAmount { arbitrary() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<TokenAmount> for TokenAmount { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: TokenAmount) -> bool { true } open spec fn add_assign_spec(&self, o: TokenAmount) -> &TokenAmount { arbitrary() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<TokenAmount> for TokenAmount { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, o: TokenAmount) -> bool { true } open spec fn sub_assign_spec(&self, o: TokenAmount) -> &TokenAmount { arbitrary() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<TokenAmount> for TokenAmount { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, o: TokenAmount) -> bool { true } open spec fn mul_assign_spec(&self, o: TokenAmount) -> &TokenAmount { arbitrary() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<TokenAmount> for TokenAmount { open spec fn obeys_div_assign_spec() -> bool { false } open spec fn div_assign_req(&self, o: TokenAmount) -> bool { true } open spec fn div_assign_spec(&self, o: TokenAmount) -> &TokenAmount { arbitrary() } }
//@traitimpl expanded:math Decimal TokenAmount skip=here
    open spec fn dv(&self) -> int { self.d() }
    open spec fn sone() -> int { 1 }
    open spec fn sscale() -> int { 0 }
    open spec fn dmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) }
//@m checked_one
//@pre
        proof { lemma_p10_0(); }
//@end
//@traitimpl expanded:math Add TokenAmount 

//@m add
    ensures r.d() == self.d() + rhs.d()
//@end
//@traitimpl expanded:math Sub TokenAmount 

//@m sub
    ensures r.d() == self.d() - rhs.d()
//@end
//@traitimpl expanded:math Mul TokenAmount 

//@m mul
    ensures r.d() == self.d() * rhs.dv() / T::sone()
//@end
//@traitimpl expanded:math Div TokenAmount 

//@m div
    ensures rhs.dv() != 0, r.d() == self.d() * T::sone() / rhs.dv()
//@end
//@traitimpl expanded:math AddAssign TokenAmount 

//@m add_assign
    ensures final(self).d() == old(self).d() + rhs.d()
//@end
//@traitimpl expanded:math SubAssign TokenAmount 

//@m sub_assign
    ensures final(self).d() == old(self).d() - rhs.d()
//@end
//@traitimpl expanded:math MulAssign TokenAmount 

//@m mul_assign
    ensures final(self).d() == muldiv(old(self).d(), rhs.d(), Self::sone())
//@pre
    proof { reveal(muldiv); }
//@end
//@traitimpl expanded:math DivAssign TokenAmount 

//@m div_assign
    ensures rhs.d() != 0, final(self).d() == old(self).d() * Self::sone() / rhs.d()
//@end
//@traitimpl expanded:math BigOps TokenAmount 
    open spec fn bmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))))) - 1) }
//@end
//@traitimpl expanded:math ByNumber TokenAmount 
    open spec fn nmax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))))) - 1) }
//@end
//@traitimpl expanded:math ToValue TokenAmount 

//@end
//@traitimpl expanded:math Others TokenAmount 

//@end
//@traitimpl expanded:math OthersSameType TokenAmount 

//@end
//@traitimpl expanded:math Factories TokenAmount gen=*:UVal

//@end
//@traitimpl expanded:math FactoriesUnderlying TokenAmount skip=U

//@end
//@traitimpl expanded:math BetweenDecimals TokenAmount 

//@end
//@traitimpl expanded:math FactoriesToValue TokenAmount gen=*:UVal

//@end
//@traitimpl expanded:math BetweenDecimalsToValue TokenAmount gen=*:UVal

//@end
//@traitimpl expanded:math CheckedOps TokenAmount 

//@end
//@fn expanded:math TokenAmount::is_zero -> r
    ensures r == (self.d() == 0)
//@end
