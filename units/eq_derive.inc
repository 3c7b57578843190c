// ---- derived equality is equality of all fields
impl PartialEq for FeeTier { #[verifier::external_body] fn eq(&self, o: &FeeTier) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl Eq for FeeTier {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for FeeTier { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &FeeTier) -> bool { *self == *o } }
impl PartialEq for PoolKey { #[verifier::external_body] fn eq(&self, o: &PoolKey) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl Eq for PoolKey {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for PoolKey { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &PoolKey) -> bool { *self == *o } }
pub assume_specification<T: PartialEq> [ <[T]>::contains ] (s: &[T], x: &T) -> (r: bool) ensures r == s@.contains(*x);
