// ---- the order of ActorId (bytewise, total): assumed
#[verifier::external_body] pub proof fn l_actor(a: ActorId, b: ActorId) ensures a == b <==> a.key() == b.key() {}
impl PartialOrd for ActorId { #[verifier::external_body] fn partial_cmp(&self, o: &ActorId) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for ActorId { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &ActorId) -> Option<core::cmp::Ordering> { if self.key() < o.key() { Some(core::cmp::Ordering::Less) } else if self.key() > o.key() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
