//@opaque wsub wadd fee_share fee_growth pos_x pos_y pos_err growth_inside max_per_tick step_price sel falign tick_price dx_err dy_err next_x_err next_y_err step_ok price_belongs fee_booked pshare tick_fixed dx dy next_in next_out chain lwf pwf twf sums
//@include base.inc
//@include uint.inc
//@include dec_all.inc
//@include pow10.inc
//@include arith.inc
//@include divrem.inc
//@include clamm_spec.inc assume
//@include clamm_fns.inc assume
//@const calc/math/consts.rs MAX_SQRT_PRICE
//@const calc/math/consts.rs MIN_SQRT_PRICE
//@include ticks_spec.inc assume
//@include ticks_fns.inc assume
//@include amounts_fns.inc assume
//@include fees_spec.inc assume
//@include fees_fns.inc assume
//@include logt_spec.inc assume
//@include logt_fns.inc assume
//@include store_types.inc
//@include tick_fns.inc assume
//@include pool_fns.inc assume
//@include position_fns.inc assume
//@include maps.inc
//@include actor_ord.inc
//@include eq_derive.inc
//@include tickmap_fns.inc assume
//@include coll_fns.inc assume
//@include inv_types.inc
//@include ledger_fns.inc assume
//@include svc_base.inc
//@include entry_fns.inc assume
//@const src/contracts/storage/tick.rs LIQUIDITY_TICK_LIMIT
//@const src/contracts/storage/tick.rs POSITION_TICK_LIMIT
//@known tickmap_slice liquidity_ticks_count
//@include query_fns.inc
}
fn main() {}
