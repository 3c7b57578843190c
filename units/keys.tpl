//@include base.inc
//@include uint.inc
//@include dec_all.inc
//@include pow10.inc
//@include arith.inc
pub spec const E12: int = 1000000000000;
/// the texts of program ids: compared as text (bytewise, total order: assumed); .key() is the place in that order
impl VString { pub uninterp spec fn key(&self) -> int; }
#[verifier::external_body] pub proof fn l_text(a: VString, b: VString) ensures a == b <==> a.key() == b.key() {}
impl Clone for VString { #[verifier::external_body] fn clone(&self) -> (r: VString) ensures r == *self { unimplemented!() } }
impl PartialEq for VString { #[verifier::external_body] fn eq(&self, o: &VString) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for VString { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &VString) -> bool { *self == *o } }
impl PartialOrd for VString { #[verifier::external_body] fn partial_cmp(&self, o: &VString) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for VString { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &VString) -> Option<core::cmp::Ordering> { if self.key() < o.key() { Some(core::cmp::Ordering::Less) } else if self.key() > o.key() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
//@enum sdk/src/wasm/storage/errors.rs InvariantError
//@struct sdk/src/wasm/storage/fee_tier.rs FeeTier copy
//@struct sdk/src/wasm/storage/pool_key.rs PoolKey
//@fn sdk/src/wasm/storage/fee_tier.rs FeeTier::new -> r
    ensures match r { Ok(f) => f.fee == fee && f.tick_spacing == tick_spacing && 1 <= tick_spacing <= 100 && fee.d() <= E12, Err(_) => tick_spacing == 0 || tick_spacing > 100 || fee.d() > E12 }
//@end
//@fn sdk/src/wasm/custom.rs is_token_x -> r
    ensures match r { Ok(x) => x == (token_candidate.key() < token_to_compare.key()), Err(_) => false }
//@end
//@fn sdk/src/wasm/storage/pool_key.rs PoolKey::new -> r
    ensures match r { Ok(k) => token_0 != token_1 && k.fee_tier == fee_tier && k.token_x.key() < k.token_y.key() && ((k.token_x == token_0 && k.token_y == token_1) || (k.token_x == token_1 && k.token_y == token_0)), Err(_) => token_0 == token_1 }
//@pre
    proof { l_text(token_0, token_1); }
//@end
}
fn main() {}
