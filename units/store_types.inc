// ---- stand-ins for foreign types
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ActorId { _b: [u8; 32] }
impl ActorId {
    pub uninterp spec fn key(&self) -> int;
    pub uninterp spec fn of(b: [u8; 32]) -> ActorId;
    #[verifier::external_body] pub fn vfrom(b: [u8; 32]) -> (r: ActorId) ensures r == ActorId::of(b) { unimplemented!() }
}
impl PartialEq for ActorId { #[verifier::external_body] fn eq(&self, o: &ActorId) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl Eq for ActorId {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for ActorId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &ActorId) -> bool { *self == *o } }
//@struct src/contracts/storage/fee_tier.rs FeeTier copy
//@struct src/contracts/storage/pool_key.rs PoolKey copy
//@struct src/contracts/storage/tick.rs Tick copy
//@struct src/contracts/storage/pool.rs Pool
//@struct src/contracts/storage/position.rs Position copy
impl Clone for Pool { #[verifier::external_body] fn clone(&self) -> (r: Pool) ensures r == *self { unimplemented!() } }
//@enum src/contracts/errors.rs InvariantError
