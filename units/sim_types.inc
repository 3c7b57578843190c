//@const sdk/src/wasm/consts.rs MAX_SWAP_STEPS
//@struct sdk/src/wasm/storage/fee_tier.rs FeeTier copy
//@struct sdk/src/wasm/storage/pool.rs Pool
//@struct sdk/src/wasm/storage/tick.rs LiquidityTick copy
//@enum sdk/src/wasm/storage/pool.rs UpdatePoolTick
pub type LiquidityTicks = Vec<LiquidityTick>;
//@struct sdk/src/wasm/storage/swap_simulation.rs SimulateSwapResult
impl PartialEq for UpdatePoolTick { #[verifier::external_body] fn eq(&self, o: &UpdatePoolTick) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for UpdatePoolTick { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &UpdatePoolTick) -> bool { *self == *o } }
pub open spec fn stop_tick(cur: int, t: int, xy: bool) -> int { if xy && cur < t { cur } else { t } }
